// What the scenarios need to know about the layout of the repository's structures.
#include <stddef.h>
#include <stdlib.h>
#include "connection.h"
#include "linked_list.h"
#include "poller.h"

int parts_bufsize(void) { return CONNECTION_BUFFER_SIZE; }
int parts_maxfds(void) { return (int)MAX_FDS; }
size_t parts_conn_size(void) { return sizeof(struct connection); }
void parts_conn_setfd(struct connection *c, int fd) { c->fd = fd; }
#ifdef HAVE_COUNTERS
int parts_conn_counters(struct connection *c, unsigned in, unsigned out, unsigned fin, unsigned fout) {
	c->in.head = c->in.tail = in;
	c->out.head = c->out.tail = out;
	c->fds_in.head = c->fds_in.tail = fin;
	c->fds_out.head = c->fds_out.tail = fout;
	return 1;
}
#else
int parts_conn_counters(struct connection *c, unsigned in, unsigned out, unsigned fin, unsigned fout) { return 0; }
#endif
size_t parts_poller_size(void) { return sizeof(struct poller); }
unsigned parts_mask(unsigned readable, unsigned writable, unsigned error, unsigned hangup) {
	return (readable ? EVENT_READABLE : 0) | (writable ? EVENT_WRITABLE : 0) | (error ? EVENT_ERROR : 0) |
	       (hangup ? EVENT_HANGUP : 0);
}
struct linked_list *parts_next(struct linked_list *l) { return l->next; }
struct linked_list *parts_prev(struct linked_list *l) { return l->prev; }
size_t parts_list_size(void) { return sizeof(struct linked_list); }
