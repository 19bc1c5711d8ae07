From 8cafccff151ef37e30e7bde3af34765d9d77ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 01/35] fix: return the open device when it is opened again

seat_open_device took a reference on the device that was already open, but
returned NULL: the client got an error with a stale errno, and the reference
was never dropped. Return the device that was found. A device that has been
revoked does not work anymore and is opened afresh instead.
---
 seatd/seat.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..6d614f6 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -358,9 +358,10 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 	     elem = elem->next) {
 		struct seat_device *old_device = (struct seat_device *)elem;
 
-		if (strcmp(old_device->path, sanitized_path) == 0) {
+		// A revoked device cannot be used again, so it is not shared
+		if (old_device->active && strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From 8640ee574d262f948862b5245e35faaa276369b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 02/35] fix: number sessions of seats without VTs from 1

seat_set_next_session only accepts positive session numbers, so the first
session of a seat that is not VT-bound could never be switched to.
---
 seatd/seat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 6d614f6..8585a17 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -229,7 +229,8 @@ int seat_add_client(struct seat *seat, struct client *client) {
 		}
 		client->session = seat->cur_vt;
 	} else {
-		client->session = seat->session_cnt++;
+		// Session numbers start at 1, as only positive ones can be switched to
+		client->session = ++seat->session_cnt;
 	}
 
 	client->seat = seat;
-- 
2.43.0


From 4fd69f306dd89ef1553e523fd28d9833123dace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 03/35] fix: clean up the VT of the session that leaves

seat_remove_client cleaned up the current VT instead of the one the leaving
session is bound to. While a VT switch is in progress no VT is current, and
the daemon failed an assertion; after one, the VT of the session that left
was kept in graphics mode with its keyboard off.
---
 seatd/seat.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 8585a17..68d5f2d 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -272,17 +272,11 @@ void seat_remove_client(struct client *client) {
 	}
 
 	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+		// The session is bound to the VT it was opened on, which is not
+		// necessarily the current one, and no other client can have a
+		// session there.
+		log_debugf("Closing VT %d", client->session);
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From 97736ce430052a3ccc215f4f1f334adf14844288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 04/35] fix: follow VT switches for sessions that wait for
 their VT

A session admitted while the previous one was still going was not told of
switches away from and back to its VT, as that VT was first set up when the
session was enabled. Its session could then be enabled while another VT was
in front, or never. Put the VT under process control on admission, make sure
the VT is still in front once it has been set up, never admit a second
session to a VT, and do not wait for a VT activation when the release was not
accepted by the kernel.
---
 seatd/seat.c | 55 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 68d5f2d..ebbb31c 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -101,6 +101,17 @@ static int vt_close(int vt) {
 	return 0;
 }
 
+static int vt_watch(int vt) {
+	int ttyfd = terminal_open(vt);
+	if (ttyfd == -1) {
+		log_errorf("Could not open terminal to watch VT %d: %s", vt, strerror(errno));
+		return -1;
+	}
+	terminal_set_process_switching(ttyfd, true);
+	close(ttyfd);
+	return 0;
+}
+
 static int vt_switch(struct seat *seat, int vt) {
 	int ttyfd = terminal_open(seat->cur_vt);
 	if (ttyfd == -1) {
@@ -119,13 +130,14 @@ static int vt_ack(struct seat *seat, bool release) {
 		log_errorf("Could not open tty0 to ack VT signal: %s", strerror(errno));
 		return -1;
 	}
+	int res;
 	if (release) {
-		terminal_ack_release(tty0fd);
+		res = terminal_ack_release(tty0fd);
 	} else {
-		terminal_ack_acquire(tty0fd);
+		res = terminal_ack_acquire(tty0fd);
 	}
 	close(tty0fd);
-	return 0;
+	return res;
 }
 
 /*
@@ -216,15 +228,13 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			errno = EINVAL;
 			return -1;
 		}
-		if (seat->active_client != NULL) {
-			for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
-			     elem = elem->next) {
-				struct client *client = (struct client *)elem;
-				if (client->session == seat->cur_vt) {
-					log_error("Could not add client: seat is VT-bound and already has pending client");
-					errno = EBUSY;
-					return -1;
-				}
+		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
+		     elem = elem->next) {
+			struct client *client = (struct client *)elem;
+			if (client->session == seat->cur_vt) {
+				log_error("Could not add client: VT already has a client");
+				errno = EBUSY;
+				return -1;
 			}
 		}
 		client->session = seat->cur_vt;
@@ -532,6 +542,10 @@ int seat_open_client(struct seat *seat, struct client *client) {
 
 	if (seat->active_client != NULL) {
 		log_error("Could not enable client: seat already has an active client");
+		if (seat->vt_bound) {
+			// We need to know of VT switches to enable the client later
+			vt_watch(client->session);
+		}
 		errno = EBUSY;
 		return -1;
 	}
@@ -541,6 +555,18 @@ int seat_open_client(struct seat *seat, struct client *client) {
 		goto error;
 	}
 
+	if (seat->vt_bound) {
+		// We are first told about VT switches once the VT has been opened,
+		// so one might have gone unnoticed.
+		seat_update_vt(seat);
+		if (seat->cur_vt != client->session) {
+			log_infof("Not enabling client: VT %d is not active", client->session);
+			vt_close(client->session);
+			errno = EAGAIN;
+			return -1;
+		}
+	}
+
 	for (struct linked_list *elem = client->devices.next; elem != &client->devices;
 	     elem = elem->next) {
 		struct seat_device *device = (struct seat_device *)elem;
@@ -732,7 +758,10 @@ int seat_vt_release(struct seat *seat) {
 		seat_disable_client(seat->active_client);
 	}
 
-	vt_ack(seat, true);
+	if (vt_ack(seat, true) == -1) {
+		// No switch takes place, so no VT activation will follow
+		return -1;
+	}
 	seat->cur_vt = -1;
 	return 0;
 }
-- 
2.43.0


From 2b3403fdcc80037431381ccceba5d8b41e03564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 05/35] fix: do not lose a signal raised while its handler runs

---
 seatd/poller.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..a4446d0 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -287,8 +287,9 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
+			// Cleared first, as the signal might be raised again meanwhile
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From 1f4706d738ae1794a9fb531cc0f6a4bc4124783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 06/35] fix: notice that accepting a client failed

---
 seatd/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/server.c b/seatd/server.c
index 47d6e91..539724d 100644
--- a/seatd/server.c
+++ b/seatd/server.c
@@ -158,7 +158,7 @@ int server_handle_connection(int fd, uint32_t mask, void *data) {
 
 	if (mask & EVENT_READABLE) {
 		int new_fd = accept(fd, NULL, NULL);
-		if (fd == -1) {
+		if (new_fd == -1) {
 			log_errorf("Could not accept client connection: %s", strerror(errno));
 			return 0;
 		}
-- 
2.43.0


From 3445cf8248ca0f8d77991d827b1ebd67c00f92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 07/35] fix: cope with the current VT being unknown

A failing VT_GETSTATE made the next VT operation abort on an assertion, and a
failed enable cleaned up the current VT instead of the client's.
---
 seatd/seat.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index ebbb31c..a462884 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -64,14 +64,19 @@ void seat_destroy(struct seat *seat) {
 	free(seat);
 }
 
-static void seat_update_vt(struct seat *seat) {
+static int seat_update_vt(struct seat *seat) {
 	int tty0fd = terminal_open(0);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to update VT: %s", strerror(errno));
-		return;
+		return -1;
 	}
-	seat->cur_vt = terminal_current_vt(tty0fd);
+	int vt = terminal_current_vt(tty0fd);
 	close(tty0fd);
+	if (vt == -1) {
+		return -1;
+	}
+	seat->cur_vt = vt;
+	return 0;
 }
 
 static int vt_open(int vt) {
@@ -125,7 +130,7 @@ static int vt_switch(struct seat *seat, int vt) {
 }
 
 static int vt_ack(struct seat *seat, bool release) {
-	int tty0fd = terminal_open(seat->cur_vt);
+	int tty0fd = terminal_open(seat->cur_vt == -1 ? 0 : seat->cur_vt);
 	if (tty0fd == -1) {
 		log_errorf("Could not open tty0 to ack VT signal: %s", strerror(errno));
 		return -1;
@@ -222,8 +227,7 @@ int seat_add_client(struct seat *seat, struct client *client) {
 	}
 
 	if (seat->vt_bound) {
-		seat_update_vt(seat);
-		if (seat->cur_vt == -1) {
+		if (seat_update_vt(seat) == -1) {
 			log_error("Could not determine VT for client");
 			errno = EINVAL;
 			return -1;
@@ -558,7 +562,10 @@ int seat_open_client(struct seat *seat, struct client *client) {
 	if (seat->vt_bound) {
 		// We are first told about VT switches once the VT has been opened,
 		// so one might have gone unnoticed.
-		seat_update_vt(seat);
+		if (seat_update_vt(seat) == -1) {
+			log_error("Could not determine VT to enable client");
+			goto error;
+		}
 		if (seat->cur_vt != client->session) {
 			log_infof("Not enabling client: VT %d is not active", client->session);
 			vt_close(client->session);
@@ -587,7 +594,7 @@ int seat_open_client(struct seat *seat, struct client *client) {
 
 error:
 	if (seat->vt_bound) {
-		vt_close(seat->cur_vt);
+		vt_close(client->session);
 	}
 	return -1;
 }
-- 
2.43.0


From 0aff3b6635acad8cbc4fd6cb29e0df952092d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 08/35] fix: refuse a client the poller has no room for

Growing the poll set failed in poller_poll, which ended the daemon for
everyone.
---
 seatd/poller.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index a4446d0..e44f4c4 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -115,8 +115,25 @@ int poller_finish(struct poller *poller) {
 	return 0;
 }
 
+static int reserve_pollfds(struct poller *poller, size_t len) {
+	if (len <= poller->pollfds_len) {
+		return 0;
+	}
+	struct pollfd *fds = realloc(poller->pollfds, len * sizeof(struct pollfd));
+	if (fds == NULL) {
+		return -1;
+	}
+	poller->pollfds = fds;
+	poller->pollfds_len = len;
+	return 0;
+}
+
 struct event_source_fd *poller_add_fd(struct poller *poller, int fd, uint32_t mask,
 				      event_source_fd_func_t func, void *data) {
+	// Fail here rather than when polling, which affects all sources
+	if (reserve_pollfds(poller, poller->fd_event_sources + 1) == -1) {
+		return NULL;
+	}
 	struct event_source_fd *bpfd = calloc(1, sizeof(struct event_source_fd));
 	if (bpfd == NULL) {
 		return NULL;
@@ -229,14 +246,8 @@ static uint32_t poll_mask_to_event_mask(int poll_mask) {
 }
 
 static int regenerate(struct poller *poller) {
-	if (poller->fd_event_sources > poller->pollfds_len) {
-		struct pollfd *fds =
-			realloc(poller->pollfds, poller->fd_event_sources * sizeof(struct pollfd));
-		if (fds == NULL) {
-			return -1;
-		}
-		poller->pollfds = fds;
-		poller->pollfds_len = poller->fd_event_sources;
+	if (reserve_pollfds(poller, poller->fd_event_sources) == -1) {
+		return -1;
 	}
 
 	size_t idx = 0;
-- 
2.43.0


From ea2e7a9bafb171006a0f90deac4652adfe269f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 09/35] fix: deliver or disconnect when an enable or disable
 event cannot be sent

A full socket buffer was taken for a failure, and the remaining bytes were
left queued without asking to be told when the socket becomes writable. After
a real failure the client was left active without having been told.
---
 seatd/client.c | 24 +++++++++++-------------
 seatd/seat.c   |  3 ++-
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..18339ae 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -458,30 +458,28 @@ static int client_handle_opcode(struct client *client, uint16_t opcode, size_t s
 	return res;
 }
 
-int client_send_disable_seat(struct client *client) {
+static int client_send_event(struct client *client, uint16_t opcode) {
 	struct proto_header header = {
-		.opcode = SERVER_DISABLE_SEAT,
+		.opcode = opcode,
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
+		// The client must not miss an event, so disconnect it. It is
+		// still in use here, and destroyed once the hangup is seen.
+		shutdown(client->connection.fd, SHUT_RDWR);
 		return -1;
 	}
 	return 0;
 }
 
+int client_send_disable_seat(struct client *client) {
+	return client_send_event(client, SERVER_DISABLE_SEAT);
+}
+
 int client_send_enable_seat(struct client *client) {
-	struct proto_header header = {
-		.opcode = SERVER_ENABLE_SEAT,
-		.size = 0,
-	};
-	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
-		log_errorf("Could not send event: %s", strerror(errno));
-		return -1;
-	}
-	return 0;
+	return client_send_event(client, SERVER_ENABLE_SEAT);
 }
 
 int client_handle_connection(int fd, uint32_t mask, void *data) {
diff --git a/seatd/seat.c b/seatd/seat.c
index a462884..edea917 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -585,8 +585,9 @@ int seat_open_client(struct seat *seat, struct client *client) {
 	client->state = CLIENT_ACTIVE;
 	seat->active_client = client;
 	if (client_send_enable_seat(client) == -1) {
+		// The client is being disconnected, which cleans up after it
 		log_error("Could not send enable signal to client");
-		goto error;
+		return -1;
 	}
 
 	log_infof("Opened client %d on %s", client->session, seat->seat_name);
-- 
2.43.0


From 5aa331b2d259f428bf1c42c651dc4cc3791a8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 10/35] fix: have room for requests with the longest paths

An open_device request with a path of 251 to 256 bytes is accepted by the
protocol but did not fit the connection buffer: the client was disconnected.
---
 include/connection.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/connection.h b/include/connection.h
index d32e766..5830f4c 100644
--- a/include/connection.h
+++ b/include/connection.h
@@ -4,7 +4,9 @@
 #include <stddef.h>
 #include <stdint.h>
 
-#define CONNECTION_BUFFER_SIZE 256
+// Must be a power of two, and hold the largest message: an open_device request
+// with a path of MAX_PATH_LEN
+#define CONNECTION_BUFFER_SIZE 512
 
 #define MAX_FDS (CONNECTION_BUFFER_SIZE / sizeof(int))
 
-- 
2.43.0


From 88a9bfd0ea3edac99e97fdc45ef20d7a661a1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 11/35] fix: report end of file while a partial message is
 buffered

The caller was told the buffered size instead and kept polling a connection
that stays readable.
---
 common/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..788327f 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -207,6 +207,10 @@ int connection_read(struct connection *connection) {
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
+	if (len == 0) {
+		// End of file, whatever is left in the buffer
+		return 0;
+	}
 	connection->in.head += len;
 
 	return connection_buffer_size(&connection->in);
-- 
2.43.0


From cfaed9da123d37d5de507238789cef168a650ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 12/35] fix: libseat: deliver seat events in the order they
 were received

---
 libseat/backend/seatd.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..623865a 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,17 +187,15 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
 static int execute_events(struct backend_seatd *backend) {
-	struct linked_list list;
-	linked_list_init(&list);
-	linked_list_take(&list, &backend->pending_events);
 	int executed = 0;
-	while (!linked_list_empty(&list)) {
-		struct pending_event *ev = (struct pending_event *)list.next;
+	// The callbacks may queue or execute further events themselves
+	while (!linked_list_empty(&backend->pending_events)) {
+		struct pending_event *ev = (struct pending_event *)backend->pending_events.next;
 		int opcode = ev->opcode;
 		linked_list_remove(&ev->link);
 		free(ev);
-- 
2.43.0


From 5499ac1713f935518e2d5bcffe1d3d74a6064aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 13/35] fix: libseat: keep the daemon's error code in errno

---
 libseat/backend/seatd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 623865a..be90611 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -479,14 +479,16 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
+	// The caller may be about to report an error
+	int saved_errno = errno;
 	if (read_and_queue(backend, NULL) == -1) {
-		return;
+		goto done;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto done;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto done;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -495,9 +497,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto done;
 	}
 	backend->awaiting_pong = true;
+
+done:
+	errno = saved_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From a6568e9d4b1285892c0153596ffd76ea170ab774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 14/35] fix: libseat: close the connection once when opening
 the seat fails

---
 libseat/backend/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index be90611..5efa5b8 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -365,6 +365,7 @@ error:
 static struct libseat *_open_seat(const struct libseat_seat_listener *listener, void *data, int fd) {
 	assert(listener != NULL);
 	assert(listener->enable_seat != NULL && listener->disable_seat != NULL);
+	int saved_errno;
 	struct backend_seatd *backend = calloc(1, sizeof(struct backend_seatd));
 	if (backend == NULL) {
 		log_errorf("Allocation failed: %s", strerror(errno));
@@ -421,7 +422,10 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	return &backend->base;
 
 backend_error:
+	saved_errno = errno;
 	destroy(backend);
+	errno = saved_errno;
+	return NULL;
 alloc_error:
 	close(fd);
 	return NULL;
-- 
2.43.0


From 3505f291b26eafee10611da212c7a768e620f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 15/35] fix: libseat: wake the application for events received
 while opening the seat

---
 libseat/backend/seatd.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 5efa5b8..5d71528 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -362,6 +362,8 @@ error:
 	return -1;
 }
 
+static void check_pending_events(struct backend_seatd *backend);
+
 static struct libseat *_open_seat(const struct libseat_seat_listener *listener, void *data, int fd) {
 	assert(listener != NULL);
 	assert(listener->enable_seat != NULL && listener->disable_seat != NULL);
@@ -419,6 +421,7 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	}
 
 	execute_events(backend);
+	check_pending_events(backend);
 	return &backend->base;
 
 backend_error:
@@ -485,7 +488,7 @@ static int send_ping(struct backend_seatd *backend) {
 static void check_pending_events(struct backend_seatd *backend) {
 	// The caller may be about to report an error
 	int saved_errno = errno;
-	if (read_and_queue(backend, NULL) == -1) {
+	if (backend->error || read_and_queue(backend, NULL) == -1) {
 		goto done;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-- 
2.43.0


From 2bfb08ac587e6a407884ed47063d59f6c0689ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 16/35] fix: libseat: close_seat reports the daemon's error and
 reads no reply that did not arrive

---
 libseat/backend/seatd.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 5d71528..df1554a 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -445,9 +445,11 @@ static struct libseat *open_seat(const struct libseat_seat_listener *listener, v
 
 static int close_seat(struct libseat *base) {
 	int res = 0;
+	int saved_errno;
 	struct backend_seatd *backend = backend_seatd_from_libseat_backend(base);
 	if (backend->error) {
 		res = -1;
+		errno = ENOTCONN;
 		goto done;
 	}
 
@@ -455,17 +457,16 @@ static int close_seat(struct libseat *base) {
 		.opcode = CLIENT_CLOSE_SEAT,
 		.size = 0,
 	};
-	if (conn_put(backend, &header, sizeof header) == -1 || read_until_response(backend) == -1) {
-		res = -1;
-	}
-
-	if (read_header(backend, SERVER_SEAT_CLOSED, 0, false) == SIZE_MAX) {
+	if (conn_put(backend, &header, sizeof header) == -1 || read_until_response(backend) == -1 ||
+	    read_header(backend, SERVER_SEAT_CLOSED, 0, false) == SIZE_MAX) {
 		res = -1;
 	}
 
 done:
+	saved_errno = errno;
 	execute_events(backend);
 	destroy(backend);
+	errno = saved_errno;
 	return res;
 }
 
-- 
2.43.0


From a1cf287e21221a57f7469bf2aed092d0a9e13017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 17/35] fix: libseat: dispatch without waiting reports that the
 connection is lost

---
 libseat/backend/seatd.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index df1554a..becfc3c 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -331,6 +331,10 @@ static int dispatch(struct libseat *base, int timeout) {
 		goto error;
 	}
 	predispatch += execute_events(backend);
+	if (backend->error) {
+		errno = ENOTCONN;
+		goto error;
+	}
 
 	// We don't want to block if we dispatched something, as the
 	// caller might be waiting for the result. However, we'd also
@@ -338,6 +342,16 @@ static int dispatch(struct libseat *base, int timeout) {
 	int read = 0;
 	if (predispatch > 0 || timeout == 0) {
 		read = connection_read(&backend->connection);
+		if (read == 0) {
+			// The other end is closed
+			set_error(backend);
+			errno = EPIPE;
+			read = -1;
+		} else if (read == -1 && errno == EAGAIN) {
+			read = 0;
+		} else if (read == -1) {
+			set_error(backend);
+		}
 	} else {
 		read = poll_connection(backend, timeout);
 	}
-- 
2.43.0


From d7323db64be8b66a9cc00af32c5aa2587e5f638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 18/35] fix: libseat: an answer with opcode 0 does not keep the
 caller waiting

---
 libseat/backend/seatd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index becfc3c..a1f59ac 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -297,12 +297,12 @@ static int read_until_response(struct backend_seatd *backend) {
 		return -1;
 	}
 	while (true) {
-		int opcode = 0;
+		int opcode = -1;
 		if (read_and_queue(backend, &opcode) == -1) {
 			log_errorf("Could not dispatch pending messages: %s", strerror(errno));
 			return -1;
 		}
-		if (opcode != 0) {
+		if (opcode != -1) {
 			break;
 		}
 		if (poll_connection(backend, -1) == -1) {
-- 
2.43.0


From b91ff034d961ab1ccf8bbfe4738afbf1adc76151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 19/35] fix: libseat: do not take a late answer for that of
 another request

---
 libseat/backend/seatd.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index a1f59ac..86d5925 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -267,7 +267,12 @@ static int poll_connection(struct backend_seatd *backend, int timeout) {
 	};
 
 	if (poll(&fd, 1, timeout) == -1) {
-		return (errno == EAGAIN || errno == EINTR) ? 0 : -1;
+		if (errno == EAGAIN || errno == EINTR) {
+			return 0;
+		}
+		// An answer that arrives later must not be taken for another's
+		set_error(backend);
+		return -1;
 	}
 
 	if (fd.revents & (POLLERR | POLLHUP)) {
-- 
2.43.0


From 0619d5ef0e4d318f467276952419191535aa31f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 20/35] fix: libseat: refuse a socket path that is too long
 instead of truncating it

---
 libseat/backend/seatd.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 86d5925..3539a16 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -56,6 +56,12 @@ static int seatd_connect(void) {
 	if (path == NULL) {
 		path = SEATD_DEFAULTPATH;
 	}
+	if (strlen(path) >= sizeof addr.unix.sun_path) {
+		log_errorf("Socket path too long: %s", path);
+		close(fd);
+		errno = ENAMETOOLONG;
+		return -1;
+	}
 	addr.unix.sun_family = AF_UNIX;
 	strncpy(addr.unix.sun_path, path, sizeof addr.unix.sun_path - 1);
 	socklen_t size = offsetof(struct sockaddr_un, sun_path) + strlen(addr.unix.sun_path);
-- 
2.43.0


From 01c35843318ebc8a03db80bd81f70bdb3bd4c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 21/35] fix: libseat: noop: do not wait in the dispatch that
 enables the seat

---
 libseat/backend/noop.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/noop.c b/libseat/backend/noop.c
index 18f26c3..29cc3c9 100644
--- a/libseat/backend/noop.c
+++ b/libseat/backend/noop.c
@@ -86,6 +86,8 @@ static int dispatch_background(struct libseat *base, int timeout) {
 	if (backend->initial_setup) {
 		backend->initial_setup = false;
 		backend->seat_listener->enable_seat(&backend->base, backend->seat_listener_data);
+		// The caller may be waiting for just this event
+		timeout = 0;
 	}
 
 	struct pollfd fd = {
-- 
2.43.0


From 7b88fa5f05de913f93d653c1db5ced55e3814ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 22/35] fix: logind: read booleans into an int as sd-bus
 requires

---
 libseat/backend/logind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..aeaa404 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -279,12 +279,15 @@ static const char *seat_name(struct libseat *base) {
 }
 
 static int session_get_active(struct backend_logind *session, bool *active) {
+	int value = 0; // sd-bus stores booleans as int
 	sd_bus_error error = SD_BUS_ERROR_NULL;
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value != 0;
 	}
 
 	sd_bus_error_free(&error);
@@ -434,7 +437,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value; // sd-bus stores booleans as int
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -479,7 +482,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value;
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From afaa9bb738302263c0136477ef5e35646c39b748 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 23/35] fix: logind: release the reply to PauseDeviceComplete

---
 libseat/backend/logind.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index aeaa404..17d9ee0 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -389,13 +389,15 @@ static int handle_pause_device(sd_bus_message *msg, void *userdata, sd_bus_error
 		// When "force" is sent, we don't need to ack and can just rely
 		// on the coming Active session property change.
 		set_active(session, false);
+		sd_bus_message *reply = NULL;
 		ret = sd_bus_call_method(session->bus, "org.freedesktop.login1", session->path,
 					 "org.freedesktop.login1.Session", "PauseDeviceComplete",
-					 ret_error, &msg, "uu", major, minor);
+					 ret_error, &reply, "uu", major, minor);
 		if (ret < 0) {
 			log_errorf("Could not send PauseDeviceComplete signal: %s",
 				   ret_error->message);
 		}
+		sd_bus_message_unref(reply);
 	}
 
 	return 0;
-- 
2.43.0


From 361784b819b094ca24fcfeb5d96a4647e7c630f2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 24/35] fix: logind: set errno when a device or session call
 fails

---
 libseat/backend/logind.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 17d9ee0..a9dc4bc 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -113,7 +113,9 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 
 	struct stat st;
 	if (stat(path, &st) < 0) {
+		int saved_errno = errno;
 		log_errorf("Could not stat path '%s'", path);
+		errno = saved_errno;
 		return -1;
 	}
 
@@ -138,6 +140,7 @@ static int open_device(struct libseat *base, const char *path, int *fd) {
 	// so we just clone it.
 	tmpfd = fcntl(tmpfd, F_DUPFD_CLOEXEC, 0);
 	if (tmpfd < 0) {
+		ret = -errno;
 		log_errorf("Could not duplicate fd: %s", strerror(errno));
 		tmpfd = -1;
 		goto out;
@@ -149,6 +152,9 @@ out:
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
+	if (tmpfd < 0) {
+		errno = -ret;
+	}
 	return tmpfd;
 }
 
@@ -163,7 +169,9 @@ static int close_device(struct libseat *base, int device_id) {
 
 	struct stat st = {0};
 	if (fstat(fd, &st) < 0) {
+		int saved_errno = errno;
 		log_errorf("Could not stat fd %d", fd);
+		errno = saved_errno;
 		return -1;
 	}
 
@@ -179,7 +187,11 @@ static int close_device(struct libseat *base, int device_id) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int switch_session(struct libseat *base, int s) {
@@ -202,7 +214,11 @@ static int switch_session(struct libseat *base, int s) {
 	sd_bus_error_free(&error);
 	sd_bus_message_unref(msg);
 	check_pending_events(session);
-	return ret < 0 ? -1 : 0;
+	if (ret < 0) {
+		errno = -ret;
+		return -1;
+	}
+	return 0;
 }
 
 static int disable_seat(struct libseat *base) {
-- 
2.43.0


From d8f5ee491b451121f12999f73efca03212d86b62 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 25/35] fix: logind: release the error when a property cannot
 be read

---
 libseat/backend/logind.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index a9dc4bc..cf4c442 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -506,6 +506,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 							  &value);
 			if (ret < 0) {
 				log_errorf("Could not get '%s' property: %s", field, error.message);
+				sd_bus_error_free(&error);
 				continue;
 			}
 
-- 
2.43.0


From 56465f3b667bf4f9f634e77bde6d43f05cb6fff6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 26/35] fix: logind: dispatch that makes the first report does
 not wait

---
 libseat/backend/logind.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index cf4c442..f7d31e9 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -269,6 +269,8 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			backend->seat_listener->disable_seat(&backend->base,
 							     backend->seat_listener_data);
 		}
+		// An event was dispatched, so there is nothing to wait for
+		timeout = 0;
 	}
 
 	int total_dispatched = 0;
-- 
2.43.0


From 1290030390e43a01de7107b7d5167dfbd7bb0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 27/35] fix: logind: dispatch reports a lost bus connection

---
 libseat/backend/logind.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index f7d31e9..a5f5870 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -278,7 +278,7 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 	while ((dispatched = sd_bus_process(backend->bus, NULL)) > 0) {
 		total_dispatched += dispatched;
 	}
-	if (total_dispatched == 0 && timeout != 0) {
+	if (total_dispatched == 0 && dispatched == 0 && timeout != 0) {
 		if (poll_connection(backend, timeout) == -1) {
 			log_errorf("Could not poll connection: %s", strerror(errno));
 			return -1;
@@ -287,6 +287,12 @@ static int dispatch_and_execute(struct libseat *base, int timeout) {
 			total_dispatched += dispatched;
 		}
 	}
+	// sd_bus_process refuses with EBUSY when called from one of its handlers
+	if (dispatched < 0 && dispatched != -EBUSY) {
+		log_errorf("Could not process D-Bus messages: %s", strerror(-dispatched));
+		errno = -dispatched;
+		return -1;
+	}
 	check_pending_events(backend);
 	return total_dispatched;
 }
-- 
2.43.0


From af60b4001c48818add6aa13cd504f911017d5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 28/35] fix: logind: fail to open the seat when memory runs out

---
 libseat/backend/logind.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index a5f5870..3968c59 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -584,6 +584,9 @@ static int manager_get_session_path(struct backend_logind *session, char **sessi
 	}
 	free(*session_path);
 	*session_path = strdup(path);
+	if (*session_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -613,6 +616,9 @@ static int manager_get_seat_path(struct backend_logind *session, char **seat_pat
 	}
 	free(*seat_path);
 	*seat_path = strdup(path);
+	if (*seat_path == NULL) {
+		ret = -ENOMEM;
+	}
 
 out:
 	sd_bus_error_free(&error);
@@ -634,6 +640,10 @@ static int get_display_session(char **session_id) {
 			goto error;
 		}
 		*session_id = strdup(xdg_session_id);
+		if (*session_id == NULL) {
+			ret = -ENOMEM;
+			goto error;
+		}
 		goto success;
 	}
 
-- 
2.43.0


From 3f43eed6cb6e549c3706fdef02c5901bf38b28cc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 29/35] fix: logind: stop listening for signals when the seat
 is closed

---
 libseat/backend/logind.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index 3968c59..7e16f71 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -34,6 +34,8 @@ struct backend_logind {
 	void *seat_listener_data;
 
 	sd_bus *bus;
+	sd_bus_slot *pause_device_slot;
+	sd_bus_slot *properties_changed_slot;
 	char *id;
 	char *seat;
 	char *path;
@@ -52,6 +54,9 @@ static struct backend_logind *backend_logind_from_libseat_backend(struct libseat
 
 static void destroy(struct backend_logind *backend) {
 	assert(backend);
+	// The bus is shared with the rest of the process and may outlive us
+	sd_bus_slot_unref(backend->pause_device_slot);
+	sd_bus_slot_unref(backend->properties_changed_slot);
 	if (backend->bus != NULL) {
 		sd_bus_unref(backend->bus);
 	}
@@ -546,15 +551,17 @@ static int add_signal_matches(struct backend_logind *backend) {
 	static const char *property_interface = "org.freedesktop.DBus.Properties";
 	int ret;
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, session_interface,
-				  "PauseDevice", handle_pause_device, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->pause_device_slot, logind,
+				  backend->path, session_interface, "PauseDevice",
+				  handle_pause_device, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
 	}
 
-	ret = sd_bus_match_signal(backend->bus, NULL, logind, backend->path, property_interface,
-				  "PropertiesChanged", handle_properties_changed, backend);
+	ret = sd_bus_match_signal(backend->bus, &backend->properties_changed_slot, logind,
+				  backend->path, property_interface, "PropertiesChanged",
+				  handle_properties_changed, backend);
 	if (ret < 0) {
 		log_errorf("Could not add D-Bus match: %s", strerror(-ret));
 		return ret;
-- 
2.43.0


From 6cf32d1a398777927cdc78c0a1854528329ef059 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 30/35] fix: seatd-launch: give up when seatd closes the
 readiness pipe

---
 seatd-launch/seatd-launch.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 65d4f33..40ffcf2 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -106,6 +106,9 @@ int main(int argc, char *argv[]) {
 			} else if (n > 0) {
 				break;
 			}
+		} else if (fd.revents & (POLLHUP | POLLERR | POLLNVAL)) {
+			fprintf(stderr, "seatd closed its notification fd prematurely\n");
+			goto error_seatd;
 		}
 	}
 	close(readiness_pipe[0]);
-- 
2.43.0


From 7f5b37c3e9680d3685e65fa5b6df1dfb3a8a63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 31/35] fix: seatd-launch: do not signal the pid of a seatd
 that was reaped

---
 seatd-launch/seatd-launch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 40ffcf2..9b6f820 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -76,8 +76,9 @@ int main(int argc, char *argv[]) {
 	while (true) {
 		pid_t p = waitpid(seatd_child, NULL, WNOHANG);
 		if (p == seatd_child) {
+			// It has been reaped, so its pid must not be signalled anymore
 			fprintf(stderr, "seatd exited prematurely\n");
-			goto error_seatd;
+			goto error;
 		} else if (p == -1 && (errno != EINTR && errno != ECHILD)) {
 			perror("Could not wait for seatd process");
 			goto error_seatd;
-- 
2.43.0


From 1aa53222c6a76e7f7427b07212df4cc6a3a786db Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 32/35] fix: seatd-launch: do not start the command without
 SEATD_SOCK

---
 seatd-launch/seatd-launch.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seatd-launch/seatd-launch.c b/seatd-launch/seatd-launch.c
index 9b6f820..3ee2189 100644
--- a/seatd-launch/seatd-launch.c
+++ b/seatd-launch/seatd-launch.c
@@ -142,7 +142,10 @@ int main(int argc, char *argv[]) {
 		perror("Could not fork target process");
 		goto error_seatd;
 	} else if (child == 0) {
-		setenv("SEATD_SOCK", SEATD_DEFAULTPATH, 1);
+		if (setenv("SEATD_SOCK", SEATD_DEFAULTPATH, 1) == -1) {
+			perror("Could not set SEATD_SOCK");
+			_exit(1);
+		}
 		execvp(command[0], command);
 		perror("Could not start target");
 		_exit(1);
-- 
2.43.0


From d04988a475157b6df0cc3a6e3e6f462a39b1b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 33/35] fix: seatd: remove the socket when start-up fails after
 binding it

---
 seatd/seatd.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seatd/seatd.c b/seatd/seatd.c
index f88e6c9..256aed7 100644
--- a/seatd/seatd.c
+++ b/seatd/seatd.c
@@ -37,20 +37,22 @@ static int open_socket(const char *path, int uid, int gid) {
 	}
 	if (listen(fd, LISTEN_BACKLOG) == -1) {
 		log_errorf("Could not listen on socket: %s", strerror(errno));
-		goto error;
+		goto error_bound;
 	}
 	if (uid != -1 || gid != -1) {
 		if (chmod(path, 0770) == -1) {
 			log_errorf("Could not chmod socket: %s", strerror(errno));
-			goto error;
+			goto error_bound;
 		}
 		if (chown(path, uid, gid) == -1) {
 			log_errorf("Could not chown socket to uid %d, gid %d: %s", uid, gid,
 				   strerror(errno));
-			goto error;
+			goto error_bound;
 		}
 	}
 	return fd;
+error_bound:
+	unlink(path);
 error:
 	close(fd);
 	return -1;
-- 
2.43.0


From 6e87ffc9841b9f8bed73f9fb9aa8607686ef6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 34/35] fix: seatd: survive a readiness fd nobody reads

---
 seatd/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seatd/seatd.c b/seatd/seatd.c
index 256aed7..35fca4e 100644
--- a/seatd/seatd.c
+++ b/seatd/seatd.c
@@ -2,6 +2,7 @@
 #include <grp.h>
 #include <poll.h>
 #include <pwd.h>
+#include <signal.h>
 #include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -154,6 +155,9 @@ int main(int argc, char *argv[]) {
 	log_init();
 	libseat_set_log_level(level);
 
+	// The reader of the readiness fd might be gone
+	signal(SIGPIPE, SIG_IGN);
+
 	struct stat st;
 	if (lstat(SEATD_DEFAULTPATH, &st) == 0) {
 		if (!S_ISSOCK(st.st_mode)) {
-- 
2.43.0


From 9adca51f92f977c9c689abff6a7e44afdc41a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 35/35] fix: report a VT switch the kernel refuses

---
 seatd/seat.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index edea917..850e7b9 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -124,9 +124,11 @@ static int vt_switch(struct seat *seat, int vt) {
 		return -1;
 	}
 	terminal_set_process_switching(ttyfd, true);
-	terminal_switch_vt(ttyfd, vt);
+	int res = terminal_switch_vt(ttyfd, vt);
+	int saved_errno = errno;
 	close(ttyfd);
-	return 0;
+	errno = saved_errno;
+	return res;
 }
 
 static int vt_ack(struct seat *seat, bool release) {
-- 
2.43.0

