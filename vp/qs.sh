#!/bin/bash
# qs.sh harness opts -- p1 p2 ...: summary lines of several parameter sets, 60 s each
h=$1; shift; o=(); while [ "$1" != -- ]; do o+=("$1"); shift; done; shift
for p in "$@"; do echo "== $p $(bash /verif/vp/q.sh $h $p --time ${TL:-60} "${o[@]}" 2>/tmp/q.err | cut -c1-${W:-420} | grep -v 'checked.*violated.: 0, .unknown.: 0')  $(tail -1 /tmp/q.err | cut -c1-200)"; done
