#!/bin/bash
# t.sh PROP [tier]: run a check, print a short summary
/usr/bin/time -f "%es" /verif/check.sh "$1" "${2:-quick}" 2>&1 | grep -v '^VIOLATION' | cut -c1-${W:-420} | tail -${N:-14}
