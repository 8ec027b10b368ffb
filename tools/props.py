"""What each check runs and what it rests on (used by check.py and mkmanifest.py)."""
class I:
    def __init__(s, runs, asan, rule, real, stub="system calls, libc threads/stdio/time (simulated)", assume=(), cap=60, note=""):
        s.runs=runs; s.asan_runs=asan; s.rule=rule; s.cap=cap; s.note=note
        s.real=real if isinstance(real, list) else [real]
        s.stub=[stub] if isinstance(stub, str) else stub
        s.assume=list(assume)+["the simulated kernel, threads and stdio behave like Linux and glibc", "random search: schedules and faults not drawn are not covered"]
LIB="libstream and libtty compiled from /repo (instrumented, otherwise unmodified)"
CODECS="the system's zlib, libbz2, liblzma, libzstd, running their own code over simulated I/O"
KERN="kernel: files, pipes, sockets, ttys, ptys, processes, signals, clock; pthreads; stdio"
NET="resolver and peers: scripted actors"
INFO={}
INFO["C05"]=I(14000, 1500, "Each run draws codecs, open modes, payloads, chunk sizes, member counts, pipe capacity and a schedule.", [LIB, CODECS], [KERN, NET])
INFO["C06"]=I(12000, 3000, "Each run draws 1-4 compressed output streams (files, slow or vanishing pipes, recorders), optional open inputs, a failing pipe/thread creation or disk, closing order, exit path and a schedule.", [LIB, CODECS], KERN)
INFO["C07"]=I(16000, 4000, "Each run draws 1-4 input streams of all kinds (file, tcp, telnet, termcast, http), compression, damage, peer behaviour, how much is read before closing, failing pipe/thread/dup/allocation, reuse of descriptor numbers and a schedule.", [LIB, CODECS], [KERN, NET, "libcurl: a scripted body delivered through the same callbacks"])
INFO["C09"]=I(20000, 5000, "Each run draws a payload, telnet commands and negotiations strewn into it, packet boundaries (down to single bytes), delays, the way the connection ends, reader speed and a schedule.", LIB, [KERN, NET])
INFO["C10"]=I(20000, 5000, "Each run draws a termcast menu (pages, names, noise), when and where the wanted session appears or whether it is missing, packet boundaries, telnet negotiations, the way the connection ends and a schedule.", LIB, [KERN, NET])
INFO["C11"]=I(40000, 9000, "Each run draws a URL (good or bad port, host form, path), the resolver's answer or error, each address's behaviour (accept, refuse, no socket) and delay, data and a schedule.", LIB, [KERN, NET])
INFO["C08"]=I(9000, 1500, "Each run draws a format, a recording (1 to about 1000 events, up to hundreds of kilobytes, exotic but valid JSON), the way it is delivered (file, pipe, network, descriptor; compressed or not; fragmentation down to single bytes), buffer sizes, or the calls that write it before reading it back.", [LIB, CODECS], [KERN, NET])
INFO["C16"]=I(16000, 4000, "Each run draws arrival times and sizes of a live source (pipe, tcp, telnet; explicit or autodetected), consumer speed, or the times of pieces written to a live output (exact seconds, late callers), signals interrupting the waits, the sub-second phase of the clock and a schedule.", LIB, [KERN, NET])
INFO["C17"]=I(10000, 1800, "Each run draws a valid recording in any format and compression, damages it (truncation, read error or reset, flipped, foreign, lost or inserted bytes at a random or structurally interesting point) and plays it; or feeds outright hostile contents (absurd lengths, huge terminals, nested headers) to the player, the loader with seeks, a converter; or junk from a network peer.", [LIB, "cat/termcat.c", CODECS], [KERN, NET], assume=["data a decompression library or zlib's own reader holds when it meets an error (up to 128 KB, by library) may be lost with the error"])
INFO["C12"]=I(12000, 2500, "Each run draws 1-4 recordings (any format, compression, local or remote, some missing, some repeated), the destination (any format, compression, standard output, or one that cannot be created), buffer sizes and a schedule.", ["cat/termcat.c", "time/termtime.c", LIB, CODECS], [KERN, NET])
INFO["C13"]=I(1800, 250, "Each run draws a recording of 1-60 frames (up to 270 KB, so several snapshots; control strings, characters and wide sequences split across frames; resizes; gaps of every kind), then a mix of seeks, steps and partial saves during and after its construction, or seeks by one thread while another adds frames (preempted at basic blocks), or loads a file in some format and saves it again.", [LIB, CODECS], [KERN, NET])
REC=["rec/termrec.c","rec/pty.c","common/open_out.c","common/rec_args.c",LIB,CODECS]
TERMS=[KERN, "the recorded program, the user and the terminal: scripted actors", "forkpty/execve: a simulated pty and program"]
INFO["C01"]=I(25000, 4000, "Each run draws a recorded program (bursts, pauses, reactions to input, way of ending), typing, window resizes, signals, terminal and program speed (down to full queues on both sides), end of input or a hangup, format, compression, append and raw modes, stdio buffering and a schedule.", REC, TERMS, assume=["the recorded program keeps reading its input"])
INFO["C02"]=I(25000, 4000, "Each run draws a recorded program whose bursts are microseconds to hours apart, typing, window resizes (also during start-up), signals, a timed format, compression and a schedule; all time is virtual.", REC, TERMS)
INFO["C03"]=I(20000, 3000, "Each run draws a session as for C01, then kills the recorder at a drawn system call or moment, or lets the disk fill up or fail at a drawn write (sometimes recovering later), and plays back what is left.", REC, TERMS, assume=["data reaches the disk in the order it was written (no power loss)", "a failing disk stays so for at least 0.3 s"])
INFO["C04"]=I(12000, 2500, "Each run draws a recording written through the library (by name, URL, descriptor or ttyrec_save), converted by termcat, or made by termrec, in any format and compression, and a storage fault: no room from a drawn byte on, a drawn write failing once or for good or for a while, with or without a short write before it, a failing close or open.", REC[:-2]+["cat/termcat.c",LIB,CODECS], TERMS)
INFO["C18"]=I(18000, 3000, "Each run draws odd terminal settings and a session as for C01, signals at drawn moments and at drawn system calls (also at every call once the program has ended), failing pty/thread/pipe/open/disk, end of input or a hangup; or a playback ended by a key, end of input, a failing start or a hangup, and a schedule.", REC[:-2]+["play/termplay.c","play/player.c",LIB,CODECS], TERMS, assume=["signals come once the handlers are installed", "several pending signals of one kind may merge"])
INFO["C14"]=I(20000, 2500, "Each run draws a recording with numbered markers as frames (gaps from 0 to beyond the 5 s limit), a format and compression, a local file or a sluggish network peer, key presses (pauses, speeds; placed freely in virtual time or at the very moment data arrives), a slow terminal, and a schedule with jitter; every byte shown is timed.", ["play/termplay.c","play/player.c",LIB,CODECS], TERMS, assume=["virtual time passes only in sleeps and jitter", "after falling behind playback may hurry by at most 1 s"])
INFO["C15"]=I(8000, 1500, "Each run draws a recording (text, colours, wide and combining characters, scrolling, erasing, resizes within the terminal), a format, a local or network source that may stall, keys of every binding placed freely or in bursts, a slow terminal, and a schedule with jitter. Whenever playback is settled an independent reference terminal fed what was written is compared to a linear replay up to the frames the position may be at.", ["play/termplay.c","play/player.c",LIB,CODECS], TERMS, assume=["the recording's screen fits the terminal", "keys come once the recording is open; a bare ESC is not a key", "cursor visibility and titles are not compared"])
INFO["C19"]=I(14000, 2500, "Each run draws 1-8 recorders started without a file name in one directory (at the same moment or seconds apart, each with its own format and program, some killed), the second, the time zone, the files and directories already there (up to 800 names of the sequence taken, with gaps), another program that creates and deletes such files meanwhile, failing creation, and a schedule.", ["rec/termrec.c","rec/pty.c","common/open_out.c","common/rec_args.c",LIB,CODECS], TERMS, assume=["without --append", "exclusive creation works in the file system"])
INFO["C25"]=I(20000, 2500, "Each run draws 2-5 jobs (playing every format, recording, sending, receiving, loading with seeks, terminals written and printed to; also nested in a callback) run by as many threads, preempted at basic blocks and after calls that move data, or up to 8 recorders and terminals used in turns, and compares each with its model or with the same done alone.", [LIB, CODECS], [KERN, NET])
INFO["C26"]=I(24000, 4000, "Each run draws a byte stream (text, control sequences whole, split and malformed, broken UTF-8, arbitrary bytes), divides it into writes or printfs of 1 to 46000 bytes, copies the terminal at drawn moments and goes on with either; or has the stream arrive as frames of a recording or live, fragmented and compressed.", [LIB, CODECS], [KERN, NET], assume=["what the undivided stream shows is not judged"])
INFO["C27"]=I(30000, 6000, "Each run draws operations (terminals written to, resized, copied; a timeline filled, sought and saved; recordings written, read or loaded, from files, pipes and peers; termcat, termtime, termrec sessions, termplay with keys) and an allocation from which on a number of them fail.", [LIB, CODECS, "rec/termrec.c","play/*.c","cat/termcat.c","time/termtime.c"], [KERN, NET], assume=["compressed recordings only while reading", "memory taken inside the C library and the compression libraries after their start is always there"])
INFO["C28"]=I(40000, 6000, "Each run draws 1-4 terminals (one column to 150), byte streams (edits, wide characters and marks at the edges and over one another, scrolling regions, resizes, resets, strings whole and aborted, arbitrary bytes), their division into writes, moments of attaching, copying, resizing and resetting by the program, and a thread schedule or a failing allocation; after each write what a viewer gathered from the events is compared to the terminal.", ["libtty/tty.c"], [KERN], assume=["what the emulator should show is not judged, only that the events agree with it", "during l_clear and l_scroll the viewer may look up the cursor, as documented"])
INFO["C29"]=I(8000, 1200, "Each run draws a terminal written to for long (marks, scrolls, resizes, strings, copies), a recording of up to hundreds of thousands of events played, converted, timed or recorded, a long session of termrec, a recording loaded and then sought and saved for long, or objects opened and closed again and again (streams, players, recorders, terminals, timelines; read to the end, abandoned, cut off, failing), with a schedule and faults; memory, its peak, threads and descriptors late are compared to those early.", ["libtty/tty.c", LIB, CODECS, "rec/termrec.c", "cat/termcat.c", "time/termtime.c"], [KERN, NET], assume=["memory taken inside the C library and the compression libraries is not counted", "the asciicast recorder may keep a terminal of the announced size"])
INFO["C30"]=I(40000, 5000, "Each run draws 1-3 mirrored terminals, the size of each and of the real one, byte streams (edits, wide characters and marks at the edges, scrolling regions, resizes, broken sequences), their division into writes, the moment of attaching, redraws, resizes and resets by the program, growth of the real terminal, a file or a pipe with a slow reader, the locale and a thread schedule; after writes an independent terminal fed what was sent is compared to the virtual one. Or the mirror's disk fills up, its reader goes away or it gets no memory, and the terminal is compared to one not mirrored.", ["libtty/vtredir.c", "libtty/tty.c"], [KERN, "the real terminal: an independent reference (sim/term.h)"], assume=["the contents fit the real terminal", "no wide characters in an ASCII locale", "cursor visibility is not mirrored"])
