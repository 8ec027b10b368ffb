#!/usr/bin/env python3
"""Regenerates the 'fixed:' lines of known-findings.txt from /repo's fix commits (property map below)."""
import subprocess
M="""C07 abandoning an input stream early
C06 failing to set up a filter left
C17 a read error was taken for
C07 bzip2 streams leaked
C05 only the first stream of a concatenated
C17 data before a corrupted part
C11 every address that refused
C11 a negative port
C10 termcast streams closed descriptors
C07 CURL streams used
C11 the end of a bracketed
C08 asciicast recordings with a backslash
C08 asciicast v1 recordings lost
C17 an asciicast truncated after
C08 typed input and other non-output
C08 nh_recorder files were misread
C08 nh_recorder recordings had
C08 autodetection lost the contents
C08 dosrecorder notes were
C13 seeking right after the first
C15 the rewind key reset
C15 termplay hung if it failed
C18 termplay left the terminal
C04 termrec claimed success
C06 termrec hung if it couldn't
C01 a window resize during a burst
C18 termrec sent signals to
C13 insert/delete/erase characters
C13 copies of a terminal shared
C06 exiting hung if an input
C17 a huge exponent
C08 an empty object
C16 a signal cut short
C17 an aborted OSC
C12 converting an empty
C08 dosrecorder frames starting
C02 a window resize could go
C03 after a failed write
C04 the recorded program inherited
C18 background threads of streams
C18 a signal could be passed on after
C14 playback rushed through
C14 playback could end without
C14 pausing just as late
C15 marks and wide characters could
C15 playback scrolled with
C15 the user's terminal missed
C15 playback cleared too little
C15 a terminal reset filled
C15 a resize within a recording
C15 inserting lines at the bottom
C15 erasing up to the cursor
C15 marks and erasing at the right
C15 a mark on a half-covered
C25 opening the first streams from several
C26 tty_printf garbled
C25 line graphics could
C27 terminals crashed or were
C26 a wide character on a terminal one
C28 halves of wide characters were
C28 a terminal reset changed flags
C27 timelines crashed or lost
C27 recorders and players crashed
C27 programs crashed when out
C06 termrec hung instead of
C03 an asciicast got a stray
C30 drawing a terminal when""".split("\n")
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.split("\n")
f=[]
for l in log:
    h,_,s=l.partition(" ")
    if not s.startswith("fix: "): continue
    s=s[5:]
    m=[x.split(" ",1)[0] for x in M if s.startswith(x.split(" ",1)[1])]
    if len(m)!=1: raise SystemExit("no property for: "+s)
    f.append(f"fixed: property={m[0]} {h} {s}")
p="/verif/known-findings.txt"
keep=[l for l in open(p).read().split("\n") if l and not l.startswith("fixed: property=")]
open(p,"w").write("\n".join(keep+f)+"\n")
