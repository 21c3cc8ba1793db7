#!/bin/sh
# compiler launcher: the flags Trilinos exports (-O2 -g -flto) come last and double the build time
exec "$@" -O1 -g0 -fno-lto
