import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","The recorder relays and captures the session exactly",
"While termrec records a program, every byte the program writes appears exactly once and in order both on the user's terminal and in the recording (apart from the size sequences the recorder itself inserts), and every byte the user types reaches the program exactly once and in order. This holds however the bytes are chunked, however slowly the terminal or the program accepts them, and whatever window resizes and signals interrupt the recorder. A session ends only when the recorded program ends or the user's input ends. When the program ends, everything it had written has been shown and captured, provided it keeps reading its input; when the user's input ends first, terminal and recording hold the same prefix. (An asciicast cannot hold an incomplete character at the very end.)",
["schedules","inputs","fault_sequences"],
"every program output and user input byte sequence, chunking, terminal/pty speed, short write, resize and signal arrival time",
"The tests record three short canned `printf` scripts over an idle pty with no user typing, no resizes and an infinitely fast terminal; they never see a short write, EINTR or a slow consumer.",
["rec/termrec.c","rec/pty.c","common/rec_args.c","libtty/files.c","libtty/formats.c","libtty/asciicast.c"],
[("select loop between terminal and pty","rec/termrec.c main"),("pty child setup","rec/pty.c run"),("resize note","rec/termrec.c sigwinch/record_size"),("format writers","libtty/formats.c, libtty/asciicast.c record_*")],
[("need_resize","SIGWINCH arrived, note the size","rec/termrec.c"),("ptym","master side of the pty","rec/termrec.c")],
["bytes on the user's terminal","bytes read by the recorded program","decoded recording file"])

p("C02","Recorded timing is faithful",
"In a recording made by termrec, each piece of output carries a time that is not earlier than when the program emitted it and not later than when it appeared on the user's terminal, to the precision of the recording format (10 ms for nh_recorder; in formats without an absolute date, relative to a common start; in an asciicast a character split between reads carries the time of its end); times never decrease. The recording also states the terminal's size at its start, and a later window resize is passed on to the recorded program and noted in the recording at the time it happened.",
["schedules","inputs"],
"every sequence of output bursts, pauses (from microseconds to hours) and resizes, in every recordable format, plain or compressed",
"Tests compare recordings whose timing is produced by sub-second real sleeps, with the timestamps masked; no test has a clock it controls, and none resizes the window.",
["rec/termrec.c","rec/pty.c","libtty/formats.c","libtty/asciicast.c","libtty/files.c"],
[("gettimeofday per chunk","rec/termrec.c main"),("format time stamps","libtty/formats.c record_*, libtty/asciicast.c record_asciicast"),("size on start and resize","rec/termrec.c record_size, rec/pty.c setsize")],
None,["time stamps decoded from the recording","virtual time of emission and display"])

p("C03","A killed or disk-full recording keeps an intact prefix",
"If the recorder is killed at any instant, or the disk fills up or fails at any write, what is in the recording file plays back as an exact prefix (data and timing) of the session, with nothing invented, reordered or duplicated (a reader may add its own message about the cut at the end). For an uncompressed recording only a bounded tail of the most recent output (buffered but unwritten data, at most 64 KiB plus the last piece of output) may be missing after a kill.",
["crash_points","fault_sequences","inputs"],
"every kill instant (including between the system calls of one frame) and every failing or short write, in every recordable format, plain or compressed",
"No test kills the recorder or fills a disk; the tests only read back recordings that were closed normally.",
["rec/termrec.c","libtty/formats.c","libtty/asciicast.c","libtty/files.c","libstream/compress.c","libstream/url_file.c"],
[("append-only self-delimiting frames","libtty/formats.c record_ttyrec/record_nh_recorder, libtty/asciicast.c"),("tolerant readers","libtty/formats.c play_*, libtty/asciicast.c play_asciicast"),("streaming compressors","libstream/compress.c write_*")],
None,["file contents left on the simulated disk","playback of that file through the library's own reader"])

p("C04","A storage failure is never reported as success",
"If any part of a recording or converted file could not be stored (disk full, I/O error, a server that leaves or cannot be reached, at open, write, flush or close), the writer is told: the library call that writes or closes it reports failure, and the command-line tool does not exit with success. Conversely, if no failure is reported, the complete recording is in the file.",
["fault_sequences","schedules","inputs"],
"every position and kind of storage failure (open, n-th write, short write, close), every recordable format, via the library, termcat and termrec; with and without compression",
"No test ever makes a write fail.",
["libtty/files.c","libtty/formats.c","libtty/asciicast.c","cat/termcat.c","rec/termrec.c","libstream/compress.c","libstream/stream.c","common/open_out.c"],
[("ttyrec_w_write/ttyrec_w_close results","libtty/files.c"),("ferror/fclose checks","libtty/formats.c, libtty/asciicast.c"),("termcat's exit status","cat/termcat.c")],
None,["return values of the writing API","exit status and stderr of the tools","file on the simulated disk"])

p("C05","Compressed streams are transparent",
"Data written through a compressed stream (gz, bz2, xz, zst) reads back byte for byte through a decompressing one, whatever the size of the individual reads and writes, however fast or slow either side is, and however the threads are scheduled. Output produced is a valid compressed file for the standard decompressor, and files made by the standard compressor, including several members appended to each other (as append mode produces), read back completely. The compression is chosen by the file name's suffix, also in combination with every way of opening a stream.",
["schedules","inputs"],
"every payload (empty to many buffers), chunking on both sides, pipe capacity, scheduling of the background thread against the caller, number of members, open mode",
"Tests compress and decompress a handful of tiny fixtures once through the real scheduler, always in one burst; none covers multi-member files, append mode, slow peers or payloads beyond a buffer.",
["libstream/compress.c","libstream/stream.c","libstream/url_file.c","libstream/prefix.c"],
[("filter thread and pipe per stream","libstream/stream.c filter"),("compressor loops","libstream/compress.c read_*/write_*"),("suffix lookup","libstream/compress.c comp_from_ext")],
None,["bytes on both ends of open_stream","file contents decoded by the reference libraries"])

p("C06","A normal exit completes all output and always terminates",
"When a program using the library, or one of the tools, exits normally after closing its output, all background work on its output streams has been finished: every byte written before the close is in the file. The exit always completes, in bounded time once the outside world makes progress, also when creating a background thread, a pipe or a pty failed earlier, in which case the failure is reported rather than ignored. A recorder that ends because the reader of its output has gone, or because of an error while waiting, ends all the same, and what it had shown is in the recording.",
["schedules","fault_sequences"],
"every interleaving of closing/exiting with the background threads, any number of concurrent streams, every failing thread/pipe/pty creation or allocation of a filter",
"The tests exit after the real scheduler has long finished the background work, use at most one compressed stream at a time and never make a resource creation fail.",
["libstream/stream.c","rec/termrec.c","libstream/compress.c","rec/termrec.c","rec/pty.c","cat/termcat.c"],
[("count of active filters and exit condition","libstream/stream.c nstreams/finish_up"),("thread creation","libstream/stream.c filter"),],
[("nstreams","filters still running","libstream/stream.c")],["file contents when the process has exited","termination of the process"])

p("C07","Abandoned or early-finished streams harm nobody else",
"A reader may close an input stream at any moment, before its end or after an error: that never kills or hangs the process, other streams keep working undisturbed, and once the background work has wound down every descriptor the library opened for the stream has been closed exactly once. A descriptor that the library does not own, or no longer owns, is never closed, read or written by it.",
["schedules","fault_sequences","histories"],
"every point of abandoning a stream, every kind of stream (plain, compressed, network, telnet, termcast and their combinations), interleaved with opening and using other streams",
"Tests open one stream per process and read it to the end; leaks, double closes and SIGPIPE races with reused descriptors cannot show.",
["libstream/stream.c","libstream/compress.c","libstream/url_tcp.c","libstream/url_telnet.c","libstream/url_termcast.c","libstream/url_curl.c","libtty/files.c","libtty/asciicast.c"],
[("filter() hands over descriptor ownership","libstream/stream.c"),("close in each filter","libstream/compress.c, url_*.c")],
None,["the simulated descriptor table with an owner and generation per descriptor","process termination by SIGPIPE"])

p("C08","Decoding does not depend on how the input is fragmented",
"Reading a recording in any supported format (ansi, ttyrec, nh_recorder, asciicast v1 and v2, dosrecorder, live, and autodetection) delivers the same bytes, the same terminal sizes and the same timing however the underlying stream splits the data into reads, wherever buffer boundaries fall and however many events or bytes the recording has. What is delivered is exactly what the recording contains according to its format, and what the library itself writes in a format reads back unchanged.",
["inputs","schedules"],
"every fragmentation of the input stream, every recording content and length (including many times the internal buffers)",
"The tests feed whole small fixture files (below every internal buffer size) from disk, where each read returns everything at once.",
["libtty/files.c","libtty/formats.c","libtty/asciicast.c","libtty/dosrecorder.c"],
[("buffered parsers","libtty/formats.c play_*, libtty/asciicast.c play_asciicast, libtty/dosrecorder.c"),("format detection","libtty/formats.c play_auto"),("writers","libtty/formats.c, libtty/asciicast.c record_*")],
None,["ttyrec_r_play callbacks"])

p("C09","Telnet streams deliver the payload and nothing else",
"Reading a telnet stream yields exactly the server's data with all telnet commands, negotiations and sub-negotiations removed and doubled IAC bytes restored, however the protocol is split across network packets. Every option request gets an answer the protocol allows: options the client knows are accepted, all others refused, and the client never starts an endless exchange; the stream ends when the server closes.",
["inputs","schedules","fault_sequences"],
"every sequence of data and telnet commands, every packet split, any server delay, disconnect at any byte",
"There is no test of telnet streams at all (it needs a server).",
["libstream/url_telnet.c","libstream/stream.c","libstream/url_tcp.c"],
[("telnet state machine","libstream/url_telnet.c telnet()")],
None,["bytes read from the stream","bytes the scripted server receives"])

p("C10","Termcast streams join the requested session",
"Opening a termcast URL starts watching exactly the session named in the URL, whatever menu pages the server sends, and the stream then contains that session's output unaltered from the joining point on. An unknown session, a server that closes or fails, or a malformed menu is reported to the reader as a message or an error and the stream ends instead of hanging.",
["inputs","schedules","fault_sequences"],
"every menu content and position of the session, packet splits, delays, telnet negotiation, disconnect at any byte",
"There is no test of termcast streams at all (it needs a server).",
["libstream/url_termcast.c","libstream/url_telnet.c","libstream/url_tcp.c"],
[("menu parser","libstream/url_termcast.c termcast()")],
None,["bytes read from the stream","commands the scripted server receives"])

p("C11","Connecting tries every address and reports failures",
"Opening a network stream connects to the first of the host's addresses that accepts, in the resolver's order and on the port given in the URL (or the protocol's default), sends nothing the protocol does not ask for, and delivers the server's bytes unaltered. If the name does not resolve or no address accepts, opening fails with a message naming the reason; in either case no descriptor is leaked.",
["fault_sequences","configurations"],
"every resolver result (none, error, IPv4/IPv6 mixtures), every subset of addresses that refuse, time out or fail to create a socket, every URL host/port form",
"There is no test that opens a network stream.",
["libstream/url_tcp.c","libstream/stream.c","libstream/url_telnet.c","libstream/url_termcast.c"],
[("address loop","libstream/url_tcp.c connect_out"),("host:port parsing","libstream/url_tcp.c")],
None,["simulated socket calls","open_stream result and error text"])

p("C12","Concatenation and conversion preserve data, order and timing",
"termcat outputs all its inputs' data in command-line order, converted between formats with every byte preserved, with each input's own timing preserved and the inputs following each other without overlap; termtime reports for each recording its true duration. An input that cannot be opened or decoded is reported on standard error and the others are processed nevertheless; if no input could be read or the destination fails, the exit status says so.",
["inputs","schedules","configurations"],
"every list of inputs, formats, compressions, fragmentations and background-thread schedules, including missing or damaged inputs",
"The tests convert a single tiny fixture at a time between some of the formats, never concatenate recordings with controlled timing and never include a failing input.",
["cat/termcat.c","time/termtime.c","libtty/files.c","libtty/formats.c","libtty/asciicast.c","common/args.c","common/open_out.c"],
[("time base across files","cat/termcat.c delay/init_wait"),("duration sum","time/termtime.c")],
None,["output file or stdout","exit status"])

p("C13","Seeking shows what linear replay would show",
"For a loaded recording, seeking to any time yields a frame and a terminal whose contents equal what one gets by feeding all bytes up to and including that frame, in order, to a fresh terminal, no matter which snapshots exist. Frames keep the order, data and (gap-limited) timing in which they were added. This also holds while another thread is still adding frames: the answer is correct for the recording as it was at some moment during the call.",
["schedules","histories","inputs"],
"every recording, every sequence of seeks and steps, every interleaving of one loading thread and a seeking thread",
"The seek test loads a recording completely and then seeks in it from a single thread; nothing covers seeking while loading.",
["libtty/timeline.c","libtty/tty.c","libtty/files.c"],
[("snapshots every so many bytes","libtty/timeline.c ttyrec_add_frame"),("seek from the nearest snapshot","libtty/timeline.c ttyrec_seek"),("lock-free append","libtty/timeline.c add_frame")],
[("snapshot","terminal state after a frame","libtty/timeline.c")],["returned frame and tty"])

p("C14","Playback is paced by the recording",
"During uninterrupted playback each frame is shown no earlier than its recorded time (scaled by the chosen speed, long gaps shortened as documented) relative to the frames before it, and no later than that time plus scheduling delay once it is available. Changing the speed, or pausing and resuming, neither skips nor repeats frames and takes effect from that moment on; slow loading delays frames but never reorders or drops them, and afterwards playback may catch up by at most a second rather than rush through what came late.",
["schedules","inputs","histories"],
"every recording timing, speed, pause and speed-change instant, loader speed and thread interleaving, seen through the player's virtual clock",
"No test runs the player at all: it needs a terminal and real time.",
["play/player.c","play/termplay.c","libtty/timeline.c"],
[("player thread and its clock","play/player.c play, t0/tr/speed"),("UI thread keys","play/player.c adjust_*"),("loader thread","play/termplay.c loader")],
None,["virtual time at which each frame's bytes reach the terminal"])

p("C15","Interactive playback shows the right screen and always ends",
"After any sequence of playback keys (seek, step, rewind, pause, speed), once the display settles the user's terminal (no smaller than the recording's) shows what the recording shows at the resulting playback position: characters, colours, combining marks and cursor. Playback that reaches the end has shown the final frame; quitting by key ends the program promptly in every state (loading, paused, sleeping, at the end) and never deadlocks or crashes.",
["schedules","histories","inputs"],
"every key sequence and its timing, recording, loader speed and thread interleaving",
"No test runs the player; its three threads with cancellation and condition variables are exercised by nothing.",
["play/player.c","play/termplay.c","libtty/timeline.c","libtty/vtredir.c"],
[("player cancel/restart around a seek","play/player.c"),("replay_* functions","play/player.c"),("screen redraw","libtty/vtredir.c vtvt_attach/resize")],
None,["bytes on the user's terminal interpreted by a reference terminal","process exit"])

p("C16","Live streams are timed by arrival, live output is paced",
"Data read from a live (untimed) stream is delivered without waiting for more, stamped with the delay between arrivals, and nothing is lost or merged out of order. Writing to a live output paces it: each piece is released no earlier than its recorded time after the start and no more than scheduling delay later.",
["schedules","inputs"],
"every arrival pattern of chunks (micro- to many seconds), every recorded timing including exact-second gaps, signals interrupting the wait",
"Timing of live streams is tested by nothing; one test pipes data in one burst.",
["libtty/formats.c","libtty/files.c"],
[("arrival clock","libtty/formats.c play_live"),("select() as sleep","libtty/formats.c record_live")],
None,["callback delays against virtual arrival times","virtual time of writes"])

p("C17","Damaged or failing input is survived and its intact part kept",
"Truncated, corrupted or hostile recordings, compressed files and network data, and inputs that start failing with a read error part way, never crash, hang, exhaust memory or corrupt memory in the readers. Everything that precedes the damage is delivered unchanged (but for what a decompression library still holds back, a bounded amount); a message about the damage may follow it.",
["fault_sequences","inputs","schedules"],
"every truncation point, byte corruption, read error position and error kind in every input format and compression",
"Two tests feed a truncated and a malformed fixture in two formats; read errors and systematic truncation or corruption are covered nowhere.",
["libtty/formats.c","libtty/asciicast.c","libtty/dosrecorder.c","libtty/files.c","libtty/tty.c","libtty/timeline.c","libstream/compress.c","libstream/url_telnet.c","libstream/url_termcast.c"],
[("length checks and error paths in the readers","libtty/formats.c, libtty/asciicast.c, libtty/dosrecorder.c"),("decompressor error handling","libstream/compress.c read_*")],
None,["AddressSanitizer and signals in the simulated process","ttyrec_r_play callbacks","step and allocation budgets"])

p("C18","Signals go to the recorded program, the terminal is restored",
"A termination or suspend request (INT, HUP, QUIT, TERM, TSTP) sent to the recorder is passed on to the recorded program's process and to nobody else, and the recorder carries on until that program ends (pending requests of one kind may merge, as signals do). On every orderly end of recording or playback, at whatever moment it comes and whether by the program's end, end of input, a failure or a quit key, the user's terminal settings are put back to what they were.",
["schedules","crash_points","fault_sequences"],
"every signal and arrival instant, every way of ending, every initial terminal setting, failing start-up steps",
"No test runs the recorder or the player on a terminal or sends a signal.",
["rec/termrec.c","rec/pty.c","play/termplay.c","play/player.c","sys/unix/ttysize.c"],
[("sigpass","rec/termrec.c"),("tty_raw/tty_restore","rec/termrec.c, play/termplay.c")],
None,["simulated kill(2) calls","simulated terminal attributes"])

p("C19","Unnamed recordings never overwrite anything",
"Starting a recording without naming a file (and without --append) always creates a new file with the chosen format's suffix and never opens, truncates or replaces one that already exists, even when many recorders start at the same moment in the same directory. The name is the local date and time of the start; if files for the same moment exist, the next free name in sequence (none, a, b, ... z, aa, ...) is used. If no file can be created, the recorder says so and fails.",
["schedules","histories","configurations"],
"every set of existing files, every interleaving with another process creating files, every format and compression choice, failures of creation",
"One test starts one recording in an empty directory.",
["common/open_out.c","common/rec_args.c","rec/termrec.c"],
[("exclusive creation and suffix sequence","common/open_out.c")],
None,["simulated directory before and after"])

p("C20","Time value arithmetic is normalised",
"Adding and subtracting recording time values always yields the mathematically correct result with microseconds within [0, 1000000).",
["inputs"],"all pairs of time values","pure function of its input",
["libtty/timeline.c","libtty/formats.c","libtty/ttyrec.h"],[("tadd/tsub macros","libtty/ttyrec.h")])
p("C21","The terminal emulator interprets control sequences as documented",
"Feeding any byte string to the terminal emulator leaves the cells, attributes, cursor and scroll region in the state the documented VT100/xterm subset prescribes.",
["inputs"],"all byte strings and terminal sizes","golden files sample a few sequences; the property is a pure function of the byte string",
["libtty/tty.c","libtty/charsets.c","libtty/wcwidth.c"],[("parser state machine","libtty/tty.c tty_write")])
p("C22","Colour conversion picks the nearest available colour",
"Reducing a true colour to a smaller palette yields a palette entry of minimal distance under the documented metric, and palette entries map to themselves.",
["inputs"],"all 24-bit colours","pure function of its input",
["libtty/colors.c"],[("rgb_to_256 and friends","libtty/colors.c")])
p("C23","File name and format lookup is total and consistent",
"Each advertised file name suffix or format name selects the format documented for it, and unknown ones are rejected.",
["inputs","configurations"],"all names","pure function of its input",
["libtty/files.c","libstream/compress.c","libstream/prefix.c","common/rec_args.c"],[("table lookup","libtty/files.c ttyrec_r_find_format/ttyrec_w_find_format")])
p("C24","Character width follows the Unicode tables",
"The width assigned to every code point is the one the documented Unicode version prescribes (0, 1 or 2 columns, -1 for controls).",
["inputs"],"all code points","pure function of its input",
["libtty/wcwidth.c"],[("interval table search","libtty/wcwidth.c vt100_wcwidth")])
p("C25","Things used at the same time do not affect one another",
"A program may use several streams, recorders, players, timelines and terminals at once: in turns on one thread, nested in one another's callbacks, or on several threads at the same time (each object by one thread). Each gives exactly the result it would give alone - the same data, timing, files and screens - whatever the interleaving.",
["schedules","inputs"],
"every set of library objects in use at once and every interleaving of the threads (or turns) using them, down to preemption within a call",
"The tests use one object at a time in one thread; interference needs two objects and a preemption inside a call.",
["libstream/stream.c","libstream/compress.c","libtty/files.c","libtty/formats.c","libtty/asciicast.c","libtty/timeline.c","libtty/tty.c"],
[("per-object state","libtty/files.c struct TTYRecRecorder, libtty/tty.h struct tty"),("filter threads","libstream/stream.c filter"),("decoder state on the stack","libtty/formats.c play_*, libtty/asciicast.c play_asciicast")],
[("nstreams","number of background threads","libstream/stream.c")],
["callbacks of ttyrec_r_play","files written","screens of terminals"])
p("C26","The screen does not depend on how its data is divided",
"Feeding a terminal a byte stream leaves the same screen, cursor, attributes, title and modes however the stream is divided into writes (plain or by printf, of any length) - down to single bytes, splitting control sequences and multibyte characters anywhere - and whichever frames or reads the data arrives in. A copy of a terminal made at any moment, in the middle of a sequence too, shows and continues what the original would, and from then on neither affects the other.",
["inputs","histories"],
"every byte stream, every division of it into writes, frames or reads, and every moment of copying",
"The tests write mostly whole sequences; the divisions of one long stream alone are beyond count, and none copies a terminal in the middle of a sequence.",
["libtty/tty.c","libtty/timeline.c","libtty/formats.c"],
[("parser state kept between writes","libtty/tty.c tty_write"),("copies","libtty/tty.c tty_copy"),("snapshots","libtty/timeline.c")],
[("state, ntok, tok[]","control sequence read so far","libtty/tty.h"),("utf_surrogate, utf_count, utf_char","multibyte character read so far","libtty/tty.h")],
["cells, cursor, attributes and title of the terminal"])
p("C27","Running out of memory is survived, and reported",
"Whenever memory cannot be had, at whatever allocation and for however long, nothing crashes, hangs, leaks memory or descriptors, or overruns its data. An operation of the libraries that fails for it says so where it has a way to (opening, writing and closing recordings, loading and saving, seeking, copying and creating terminals) and what it claims to have done is complete and exact (except that compressed input may seem to end early, and that compressed output is not covered here); a terminal or timeline that could not store something keeps working, and works fully once there is memory again. The programs end with a message and a non-zero status, or do their work in full, and leave the terminal with its settings restored.",
["inputs","histories","faults"],
"every allocation of every operation failing, alone or for any while",
"No test makes an allocation fail; there are some hundred places and moments where one can.",
["libtty/tty.c","libtty/timeline.c","libtty/files.c","libtty/asciicast.c","libtty/formats.c","libstream/stream.c","rec/termrec.c","play/player.c"],
[("terminals","libtty/tty.c tty_init, tty_resize, tty_copy, tty_add_comb"),("timelines","libtty/timeline.c"),("opening recordings","libtty/files.c ttyrec_w_open, ttyrec_r_play"),("threads of streams","libstream/stream.c filter"),("programs","rec/termrec.c, rec/pty.c, play/termplay.c, play/player.c, cat/termcat.c")],
[("failed","a timeline has lost a frame","libtty/timeline.c")],
["return values of the libraries","contents of recordings, timelines and screens","exit status and messages of the programs","open descriptors and allocated memory"])
p("C28","A terminal's events tell everything that happens to it",
"A viewer that attaches its callbacks to a terminal at any moment, and from then on knows it only by them, always knows the screen: after every write, the characters (with their marks, attributes and widths), cursor, size, cleared and scrolled regions, title, cursor visibility and keypad mode reported add up to exactly what the terminal holds. Each event keeps to its documentation (widths of 1 or 2 within the screen, clears that end on the cursor's line or the screen's edge, the cursor where it is said to be); every bell and string command is reported once, every write ends with one flush, destruction is announced once with the contents still there. Copies report nothing until someone attaches, and all this holds when memory runs out.",
["inputs","histories","schedules","faults"],
"every byte stream and division of it, every moment of attaching and copying, resizes and resets by the program, failing allocations, several watched terminals on several threads",
"The emulator's tests look at the final screen of a few short inputs; no test attaches a callback.",
["libtty/tty.c","libtty/tty.h"],
[("events of written characters","libtty/tty.c tty_write_char, tty_add_comb, cjk_damage_left"),("events of control sequences","libtty/tty.c tty_write, SCROLL, CLEAR, FLAG, L_CURSOR"),("strings","libtty/tty.c osc"),("hooks","libtty/tty.h l_char .. l_free")],
[("scr, combs","cells and marks","libtty/tty.h")],
["the callbacks l_char, l_comb, l_cursor, l_clear, l_scroll, l_flag, l_osc, l_resize, l_flush, l_bell, l_free and their arguments"])
p("C29","Nothing accumulates, however long it runs",
"What the libraries and programs hold does not grow with what has passed through them. A terminal's memory is bounded by its size, however much is written to it; a stream, player or recorder needs memory for the event at hand and its fixed buffers, however many gigabytes, events, days or window sizes have passed; termrec, termcat and termtime likewise, from first to last. A loaded recording takes memory in proportion to its contents, whatever is then sought, stepped and saved. And anything opened, used and closed again and again - finished, abandoned half read, cut off by its peer, or failing to open - leaves memory, background threads and descriptors as they were.",
["inputs","histories","schedules","faults"],
"every length of recording, session and terminal history; every number of objects opened and given up one after another, in whatever way each ends",
"The tests handle a few short recordings once each; what is lost a few bytes or one descriptor at a time shows only after long histories, or after the unusual endings repeated.",
["libtty/tty.c","libtty/timeline.c","libtty/files.c","libtty/formats.c","libtty/asciicast.c","libstream/stream.c","libstream/compress.c","libstream/network.c","libstream/url_tcp.c","libstream/url_termcast.c","rec/termrec.c","cat/termcat.c","time/termtime.c"],
[("marks and their table","libtty/tty.c tty_add_comb, tty_clear_comb, tty_resize"),("frames and snapshots","libtty/timeline.c ttyrec_add_frame"),("recorders and players","libtty/files.c ttyrec_w_close, ttyrec_r_play"),("buffers of formats","libtty/formats.c, libtty/asciicast.c play_asciicast"),("threads and pipes of streams","libstream/stream.c filter, finish_up")],
[("combs, ncombs","marks in use","libtty/tty.h"),("nstreams","background threads","libstream/stream.c")],
["memory allocated and not yet freed at moments far apart, its peak, the number of threads and open descriptors"])
p("C30","A mirrored terminal shows what the virtual one holds",
"While a terminal's contents are mirrored onto a stream (vtvt_attach), a real terminal at the other end - of any size the contents fit in, bigger or not, in a UTF-8 or an ASCII locale - shows after every write exactly what the virtual terminal holds: characters with their marks and looks, cursor, title, bells; it's sent nothing but sequences any terminal knows. This holds whatever the data and however divided, whenever the mirror is attached (drawing what's there), for changes of size on either side, redraws at any moment, several mirrors on several threads and whatever is done to copies. The mirror never affects the terminal mirrored - not when its output fails, its reader goes away, or there is no memory for it - and ends with tty_free, leaving the stream to the program.",
["inputs","histories","schedules","faults"],
"every byte stream and division of it, sizes of both terminals, moments of attaching, redrawing and resizing, failing outputs, several mirrors at once",
"One test mirrors one short input onto the same emulator, so what both misunderstand is not seen, nor cursor, marks, titles, resizes, sizes that differ, attaching later or failing output.",
["libtty/vtredir.c","libtty/tty.c"],
[("events turned into sequences","libtty/vtredir.c vtvt_char, vtvt_comb, vtvt_clear, vtvt_scroll, vtvt_resized"),("attaching and redrawing","libtty/vtredir.c vtvt_attach, vtvt_dump"),("looks","libtty/vtredir.c setattr, print_color")],
[("cx, cy, attr","what the real terminal is believed to have","libtty/vtredir.c struct vtvt_data")],
["bytes written to the stream, as an independent terminal interprets them, and the virtual terminal's cells, cursor and title"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
