#!/bin/bash
# Compiles the repository's daemon code together with demo.c and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
srcs=$(ls seatd/*.c common/*.c | grep -v '^seatd/seatd.c$')
gcc -std=gnu11 -g -O1 -w -U_FORTIFY_SOURCE -D_GNU_SOURCE -DSEATD_VERSION='"x"' -DREL_SRC_DIR='""' -Iinclude -I"$here" $SAN -o "$t/demo" "$here/demo.c" $srcs \
	-Wl,--wrap=open,--wrap=ioctl,--wrap=realpath,--wrap=poll,--wrap=sendmsg || exit 99
timeout 60 "$t/demo"
