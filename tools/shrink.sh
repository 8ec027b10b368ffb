#!/bin/bash
# shrink.sh PROP SEED IDX [secs]: minimise a violation and show it
cd /verif; build/sim-plain min $1 $2 $3 /tmp/m.replay ${4:-60} >/dev/null 2>&1; build/sim-plain replay /tmp/m.replay t 2>/tmp/t.x | head -c 500; echo;  grep -a "recording" /tmp/t.x | sed 's/^.*recording //' > /tmp/t.r; awk '{ if (length($0)>600) print substr($0,1,200) " ... " substr($0,length($0)-300); else print }' /tmp/t.r | tail -30; echo; grep -a shown: /tmp/t.x | tail -c 200; grep -a "user.*\[key" /tmp/t.x | head
