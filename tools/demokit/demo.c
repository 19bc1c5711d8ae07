#include "kit.h"
int main(void) {
	kit_init(1);
	struct cl *a = cl_new();
	CHECK(open_seat(a));
	CHECK(cl_expect(a, SERVER_ENABLE_SEAT, NULL));
	cl_opendev(a, "/dev/dri/card0"); pump();
	int id;
	CHECK(cl_expect(a, SERVER_DEVICE_OPENED, &id) && id > 0);
	int fd = cl_fd(a);
	CHECK(dev_live(fd));
	kvt_go(2); pump();
	CHECK(cl_expect(a, SERVER_DISABLE_SEAT, NULL) && !dev_live(fd) && kfg == 2);
	puts("ok");
}
