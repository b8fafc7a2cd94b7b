#!/bin/sh
# List of redefinitions for objcopy, from the vf_ functions defined in shim.o
nm "$1" | awk '$2=="T" && $3 ~ /^vf_/ {print $3}' | grep -v -E '^vf_(reset|count_fds|fd_set_hash|advance|timers_reset|timers_pending|next_deadline)$' | sed 's/^vf_\(.*\)$/\1 vf_\1/'
