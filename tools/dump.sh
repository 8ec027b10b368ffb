#!/bin/bash
# dump.sh PROP SEED IDX: what a playback was given and showed
cd /verif; build/sim-plain one $1 $2 $3 t 2>/tmp/t.x >/tmp/t.out; head -c 600 /tmp/t.out; echo; grep -a "recording\|shown:" /tmp/t.x | cut -c1-${4:-800} 
