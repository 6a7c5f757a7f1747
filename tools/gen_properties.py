#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

UT="src/unix/terminal.rs"; US="src/unix/screen.rs"; BUF="src/buffer.rs"; T="src/terminal.rs"; S="src/screen.rs"
PTY=["bytes of every write to the terminal device, replayed into a VT emulator", "return values of the public API"]

prop("S01","Screen refresh shows exactly what was drawn",
 "After every refresh of a Screen (explicit, or by dropping a write guard) the terminal displays exactly the accumulated result of the drawing operations made so far: each cell shows its character with its foreground, background and style, and every other cell is blank. This holds for any history of drawing, clearing and refreshing, however little or much changed since the previous refresh, and for every supported terminal type.",
 ["histories","inputs","configurations"],"every sequence of drawing calls, attribute changes, clears and refreshes, every screen size, every terminal type with a scrolling region and cursor addressing",
 "The unit tests inspect one buffer's cells after a handful of writes; none renders to a terminal, and whether an incremental redraw is right depends on the whole history of previous redraws.",
 [BUF,US,S,UT],[("dirty-cell diff against the last rendered buffer","src/buffer.rs next_cell"),("refresh loop, cursor motion elision","src/unix/screen.rs refresh/move_cursor"),("attribute switching","src/unix/terminal.rs set_attrs")],
 [("buffer/back_buffer","what should be and what has been drawn","src/buffer.rs"),("real_cursor","where the terminal's cursor is believed to be","src/unix/screen.rs")],PTY)
prop("S02","Screen cursor: text layout, bounds and final cursor position",
 "Writing to a Screen places each printable character at the cursor and advances it by the character's width, wrapping to the next line at the right edge; newline, carriage return and tab (to the next multiple of 8, at most to the end of the line) move it accordingly, and text that would fall outside the screen is dropped without altering any other cell or panicking. After a refresh the terminal's cursor stands at the screen's cursor position, or at the last cell if that position is out of bounds.",
 ["inputs","histories","configurations"],"every cursor position in or out of bounds, every text, every screen size, every interleaving of cursor motion with writes and refreshes",
 "Tests try four literal strings on three sizes; the terminal's own cursor is never observed.",
 [BUF,US,T],[("write_char layout rules","src/buffer.rs write_char"),("bounds check","src/buffer.rs try_cursor"),("final cursor motion","src/unix/screen.rs refresh")],
 [("cursor","next cell to write","src/buffer.rs ScreenBuffer")],PTY)
prop("S03","Wide and combining characters are drawn whole and within their line",
 "On a Screen a double-width character always occupies two adjacent cells of one line (moving to the next line when only one column is left, which becomes a blank of the same attributes) and is never shown by half or left over once either of its cells is overwritten; a zero-width combining mark is shown attached to the character it follows. Cells next to such characters keep displaying what was drawn in them.",
 ["inputs","histories"],"every mix of narrow, wide and combining characters over every overwrite history, at every column including the edges",
 "One unit test overwrites wide characters in the middle of one line of the buffer; edges, repeated overwriting with refreshes in between and combining marks on wide characters are never rendered.",
 [BUF,US],[("wide-cell bookkeeping","src/buffer.rs write_char/next_cell"),("combining marks","src/buffer.rs write_char")],
 [("Cell.text","character plus its combining marks","src/buffer.rs")],PTY)
prop("S04","Text drawn on a Screen cannot control the terminal",
 "Whatever string is written to a Screen, including escape sequences, C0/C1 control characters, DEL and zero-width characters, none of its non-printable content reaches the terminal: the terminal only receives printable text and the control sequences mortal itself issues for its terminal type, so modes, cursor and other cells are unaffected.",
 ["inputs"],"every string over all of Unicode, through every Screen writing method",
 "No test writes a control character other than tab and CR, and none looks at the bytes sent to the terminal.",
 [BUF,US,"src/priv_util.rs","src/util.rs"],[("visibility filter","src/buffer.rs write_char, src/priv_util.rs is_visible")],
 [],PTY)
prop("S05","Resizing keeps the overlapping content and redraws everything",
 "When a read on a Screen returns a Resize event, the Screen has the reported new size, its content in the area common to the old and new size is unchanged and new cells are blank, and the next refresh makes the terminal display exactly that content, whatever the terminal showed after being resized; the cursor of the Screen stays where it was. Any sequence of resizes interleaved with drawing and refreshing behaves so.",
 ["histories","inputs"],"every sequence of valid sizes, drawing operations and refreshes, whatever the terminal's own content after a resize",
 "There is no test of resizing at all.",
 [US,BUF,UT],[("buffer copy","src/buffer.rs resize_buffer"),("invalidation","src/buffer.rs new_buffer, src/unix/screen.rs update_size"),("event translation","src/unix/terminal.rs handle_signal")],
 [("clear_screen","terminal must be cleared before redrawing","src/unix/screen.rs")],PTY)
prop("S06","A Screen leaves the terminal as it found it",
 "When a Screen is dropped, normally or while unwinding from a panic raised with read or write guards held, the terminal device is back in the state it had before the Screen was created: line settings, signal handlers, alternate-screen, keypad and mouse modes, visible cursor and default text attributes. If creating the Screen fails, line settings, signal handlers and terminal modes are likewise as before.",
 ["configurations","histories","fault_sequences","crash_points"],"every configuration and terminal type, every history of use, every point at which creation can fail, a panic at any point of use",
 "No test creates a Screen.",
 [US,UT],[("drop","src/unix/screen.rs Drop for Screen"),("restore","src/unix/terminal.rs restore_with_lock"),("creation order","src/unix/screen.rs Screen::new")],
 [("state","settings to restore","src/unix/screen.rs Screen.state")],PTY+["tcgetattr on the device","sigaction query of each signal"])
prop("S07","Concurrent drawing on a Screen is atomic per guard and loses nothing",
 "Threads sharing a Screen may draw, refresh and change the cursor concurrently: everything drawn through one write guard, or by one drawing call, becomes visible as a unit, with no other thread's drawing or refreshing in between, and once the threads are done a refresh shows every thread's last drawing. No schedule loses, duplicates or tears an update.",
 ["schedules","histories"],"every interleaving of any number of threads using guards, direct methods and refreshes",
 "The only concurrency test is a compile-time check that the types are Send and Sync.",
 [US,S],[("terminal lock then buffer lock","src/unix/screen.rs lock_write"),("buffer lock for direct calls","src/unix/screen.rs lock_write_data")],
 [("writer","Mutex around buffer and render state","src/unix/screen.rs")],PTY)
prop("S08","A refresh that failed on the device loses nothing",
 "When the device reports an error during a Screen refresh, at whatever write of it, the refresh reports an error and nothing drawn is lost: whatever else is drawn or fails in between, the next refresh that succeeds makes the display show exactly what was drawn, as if none had failed. A refresh during which the device reports no error succeeds.",
 ["fault_sequences","histories"],"every number and position of device errors over refreshes of screens of every size",
 "No test makes a device write fail.",
 [US,"src/buffer.rs",UT],[("cell taken for shown before it is written","src/buffer.rs next_cell"),("refresh loop","src/unix/screen.rs refresh"),("buffer kept after an error","src/unix/terminal.rs flush")],
 [("back_buffer, real_cursor","what the terminal is believed to show","src/buffer.rs, src/unix/screen.rs")],PTY)
prop("S09","The display changes only at a refresh, and only where content has changed",
 "Drawing on a Screen, directly or through a guard, and reading its events send nothing to the terminal; what it shows changes only by a refresh or the release of a write guard. These draw again only what differs from what they last showed (everything, after a resize): a cell whose text and attributes are as last shown is not erased, not at any moment shown otherwise, and not written again (but for short gaps between changed cells on a line); when nothing has changed no text is sent.",
 ["histories","configurations"],"every history of drawing, refreshes and resizes on every terminal type",
 "Unit tests look at the buffer of one small drawing, not at what is sent.",
 [US,"src/buffer.rs"],[("difference to what is shown","src/buffer.rs next_cell, back_buffer"),("refresh","src/unix/screen.rs ScreenWriteGuard::refresh")],
 [("back_buffer","what the terminal shows","src/buffer.rs")],["every byte sent, replayed one by one","cells written and display after every erasure"])
prop("T01","Terminal output arrives exactly once and in order",
 "Every byte passed to a Terminal write method that returns Ok reaches the device exactly once and in call order by the time the write guard is dropped or flushed successfully, whatever the sizes of the writes and however the device splits, interrupts or delays them. When the device reports an error, bytes it had already accepted are not sent again, bytes still buffered are delivered by the next successful flush, and of a write call that itself returned an error at most a prefix is sent.",
 ["inputs","fault_sequences","histories"],"every sequence of write sizes around and above the internal buffer size, every pattern of short writes, interrupted calls and device errors",
 "No test writes to a device; partial writes never happen on a healthy terminal.",
 [UT],[("buffering","src/unix/terminal.rs write_bytes"),("flush and retry loop","src/unix/terminal.rs flush/write_data"),("flush on guard drop","src/unix/terminal.rs Drop for TerminalWriteGuard")],
 [("out_buffer","bytes not yet sent","src/unix/terminal.rs Writer")],["arguments and results of every write(2) on the device"])
prop("T02","Line-mode attributes: text shows exactly the accumulated color and style",
 "Text written to a Terminal is displayed with exactly the foreground, background and style that result from the attribute calls made so far (set, add, remove, theme, clear, write_styled, which clears attributes afterwards), as far as the terminal type supports them; removing one attribute never removes or adds another. This holds for every sequence of attribute calls.",
 ["histories","configurations"],"every sequence of attribute operations and writes, every terminal type",
 "No test emits an attribute; correctness depends on the history of previous calls because only differences are emitted.",
 [UT,T],[("difference emission","src/unix/terminal.rs set_fg/set_bg/add_style/remove_style/set_style/set_attrs"),("reset and re-apply","src/unix/terminal.rs remove_style, clear_fg, clear_bg")],
 [("fg, bg, cur_style","attributes believed to be active","src/unix/terminal.rs Writer")],PTY)
prop("T03","Cursor movement, clearing and cursor mode do what they say",
 "On a Terminal, moving up, down, left or right by n moves the cursor by exactly n cells, stopping at the screen edge and never scrolling or altering text (n = 0 does nothing, huge n goes to the edge); moving to the first column, clearing the screen (cursor to the first cell), to line end or to screen end erase or move exactly what they name; and the cursor mode hides or shows the cursor, which is visible once the Terminal has been dropped, also by a thread that panicked while writing. Where the terminal type lacks the function an error is returned, or for the cursor mode nothing happens, and nothing is sent.",
 ["inputs","histories","configurations"],"every sequence of such operations with every count, every terminal type",
 "No test performs any of them.",
 [UT,T],[("capability expansion","src/unix/terminal.rs expand_req/expand_opt, move_*, clear_*"),("count conversion","src/unix/terminal.rs to_u32")],
 [],PTY)
prop("T04","Output of a write guard is never interleaved with another thread's",
 "While a thread holds a Terminal write guard, everything it writes, including attributes and everything one term_write!/term_writeln! invocation produces, appears on the device contiguously and in order, with no byte from another thread in between; each direct write call on a shared Terminal is likewise contiguous, and each thread's output appears in its own order, complete, and with its own attributes. This holds under every schedule.",
 ["schedules","histories"],"every interleaving of any number of writer threads, guard lengths and output sizes",
 "No test has two threads.",
 [UT,T,"src/macros.rs"],[("writer mutex","src/unix/terminal.rs Terminal.writer"),("flush before unlock","src/unix/terminal.rs Drop for TerminalWriteGuard"),("macro holds the guard","src/macros.rs term_write")],
 [],["arguments of every write(2) on the device with thread identity"])
prop("T05","Read and write locks are exclusive, independent and free of deadlock",
 "A read or write guard of a Terminal or Screen excludes every other guard of its kind (try_lock says WouldBlock) but never blocks the other kind: a thread waiting for input does not stop others from writing, and the reverse. After a panic with a guard held, locking reports poisoning with a usable guard; and threads that take the read lock before the write lock, and do not read while holding the write lock, always make progress, whatever else the others do.",
 ["schedules","histories"],"every interleaving of guards, try_locks, direct calls, blocking reads, resizes and resumes on both interfaces",
 "No test takes a lock.",
 [UT,US,"src/priv_util.rs"],[("two mutexes","src/unix/terminal.rs Terminal"),("lock order","src/unix/screen.rs lock_write"),("result mapping","src/priv_util.rs")],
 [],["results and order of lock acquisition in a monitored run"])
prop("T06","term_write! is equivalent to the calls it documents",
 "A term_write!/term_writeln! invocation on a Terminal, Screen or one of their write guards has exactly the effect of the documented method calls made in order through one guard (plus a final newline for term_writeln!); on a Terminal the first failing element ends the chain and its error is the result, and no later element is evaluated or sent.",
 ["programs","histories","fault_sequences"],"every kind of macro element in any combination, on all receivers, with device errors at any element",
 "Doc-tests only compile the macros.",
 ["src/macros.rs"],[("element chaining","src/macros.rs Chain"),("guard borrow","src/macros.rs term_write entry rule")],[],PTY)
prop("T07","Device errors are reported by the operation that met them",
 "When the terminal device fails during an operation that returns a result (a write, read or wait, a query or change of its settings or size, or the installation of a signal handler), or a terminal capability the operation uses cannot be expanded, that operation returns the error instead of success, for every operation and every position of the failure among its system calls. A prepare that failed is undone, a restore that failed has restored everything else all the same, and a read that failed loses no input. Outside this are errors that no call can return: of the output which a Terminal method called without a guard leaves to be flushed as it releases its lock, and of drops.",
 ["fault_sequences","inputs","configurations"],"a failure at every system call of every operation, in every state of the output buffer",
 "No test makes the device fail.",
 [UT,US],[("error propagation","src/unix/terminal.rs write_bytes, flush, read_input, complete_sequence, handle_signal"),("undoing a prepare","src/unix/terminal.rs prepare_with_lock, restore_with_lock"),("refresh","src/unix/screen.rs ScreenWriteGuard::refresh")],
 [],["errno injected at each interposed system call","result of the call","tcgetattr and sigaction afterwards"])
prop("T08","A terminal works on exactly the devices it was opened on",
 "A Terminal or Screen on standard output, on standard error or opened by path reads only from its input device (standard input, or the path), changes only that device's settings (and gives it its own ones back), and sends output only to its output device, whatever other terminals the process uses or has prepared. Its size is the output device's size at the moment of the call, through a guard or not (a Screen's: at its creation or last Resize event); its name is the content of TERM when it was opened. Without a readable description of that terminal type it is not opened at all.",
 ["configurations","histories"],"every way of opening, any number of terminals at once, and every use of them",
 "No test opens a terminal.",
 [UT,US],[("which device","src/unix/terminal.rs Terminal::open, stdout, stderr; uses of in_fd and out_fd"),("size","src/unix/terminal.rs get_winsize"),("name","src/unix/terminal.rs Terminal::name")],
 [("in_fd","device read and configured","src/unix/terminal.rs"),("out_fd","device written to","src/unix/terminal.rs")],["output and input of each of three pseudo-terminals","tcgetattr of each","results of size() and name()"])
prop("T09","Concurrent calls act as if made one after another",
 "Each call on a Terminal or Screen, and each use of one of their write guards, takes effect as a whole: when threads make calls on the same Terminal or Screen, or on two Terminals of one process, what the device is sent, what every call returns, the events and data read, and the final content, attributes, settings and signal dispositions are those of some order in which the same calls could have been made one at a time, each thread's in its own order, wherever in a call one thread is overtaken by another.",
 ["schedules","histories"],"every pair of short call sequences and every instruction at which one thread overtakes the other",
 "No test uses two threads, and none opens a terminal.",
 [UT,US],[("locking","src/unix/terminal.rs lock_write, lock_read; src/unix/screen.rs lock_write"),("compound calls","src/unix/terminal.rs prepare, restore, read_event; src/unix/screen.rs refresh, read_event")],
 [("PREPARED, LAST_SIGNAL","signal state of the process","src/unix/terminal.rs")],["thread switches at chosen instructions (trap flag)","results of every call, device output, final state, compared with those of every sequential order"])
prop("P01","prepare puts the terminal into exactly the requested mode",
 "After a successful prepare, canonical mode, echo and the translation of carriage return and newline on input are off and reads never block in the driver; signal keys and flow control are enabled exactly as configured; mouse (and motion) reporting and keypad mode are switched on exactly when requested and supported; Continue, Resize and exactly the signals requested are intercepted, and every other setting and signal disposition is as before.",
 ["configurations","inputs"],"every PrepareConfig, every initial line setting and terminal type",
 "No test calls prepare.",
 [UT],[("termios edit","src/unix/terminal.rs prepare_with_lock"),("mouse/keypad","src/unix/terminal.rs enable_mouse/enable_keypad"),("sigaction","src/unix/terminal.rs prepare_with_lock")],
 [],["tcgetattr on the device","sigaction query of each signal","mode sequences seen by the VT emulator"])
prop("P02","restore returns the terminal to the state before the matching prepare",
 "For prepare calls nested to any depth and restored last-in-first-out, each restore returns the line settings, signal dispositions, set of reported signals, and keypad and mouse modes to what they were immediately before the matching prepare, so that the outer preparation is fully in force again and after the last restore everything is as originally found. Input typed before a prepare or restore and not read yet is still there afterwards. This holds for every combination of configurations, with reading, writing and resuming in between.",
 ["histories","configurations"],"every nesting of configurations and every use in between",
 "No test calls prepare or restore.",
 [UT],[("PrepareState","src/unix/terminal.rs PrepareState"),("restore","src/unix/terminal.rs restore_with_lock")],
 [("resume, report_signals","configuration currently in force","src/unix/terminal.rs Reader")],["tcgetattr","sigaction query","mode sequences seen by the VT emulator","events read"])
prop("P03","A resumed process gets its prepared terminal back",
 "When a prepared program is continued after suspension (SIGCONT) and next reads, the most recently prepared, not yet restored configuration is applied to the terminal again, whatever another program did to it meanwhile, and a later restore still returns to the state before the original prepare, also when the read begins with part of a character typed before. With nothing prepared, resuming changes nothing.",
 ["histories","configurations"],"every configuration and nesting, any number of suspensions, any change made to the terminal while suspended",
 "No test prepares a terminal or delivers a signal.",
 [UT],[("resume","src/unix/terminal.rs resume/handle_signal")],
 [("resume","configuration to re-apply","src/unix/terminal.rs Reader")],["tcgetattr","mode sequences seen by the VT emulator","sigaction query"])
prop("I01","Key input is decoded to exactly the keys typed",
 "A byte stream consisting of whole key sequences of the terminal type and UTF-8 characters is read back by read_event as exactly the corresponding keys in order: the longest matching key sequence wins, control characters map to their documented keys, and every other character is reported as itself. The result does not depend on how much input has piled up or how the device hands it out, as long as all bytes of a key sequence are available when it is read.",
 ["inputs","histories","configurations"],"every sequence of keys and characters, every backlog length and read segmentation, every terminal type",
 "Only the prefix map is unit-tested; the decoder never runs on input, least of all across read boundaries.",
 [UT,T,"src/sequence.rs"],[("longest match","src/unix/terminal.rs peek_event"),("key table","src/unix/terminal.rs sequences"),("char mapping","src/terminal.rs From<char> for Key"),("buffering","src/unix/terminal.rs read_into_buffer")],
 [("in_buffer","bytes read but not yet decoded","src/unix/terminal.rs Reader")],["events returned for a known byte stream"])
prop("I02","Mouse reports are decoded to exactly the reported events",
 "On xterm-compatible terminals every well-formed SGR mouse report is read as one mouse event with the reported zero-based position, button or wheel or motion, press or release, and modifier keys, in order with surrounding keys; a malformed or out-of-range report is never read as a mouse event with a wrong position and never panics.",
 ["inputs","histories"],"every button code, coordinate and terminator, well-formed or not, in every surrounding input",
 "No test feeds a mouse report.",
 [UT],[("report parser","src/unix/terminal.rs parse_mouse_data/parse_integer/mouse_button_event")],[],["events returned for a known byte stream"])
prop("I03","No input byte is lost, duplicated or reordered",
 "Every byte arriving at the terminal is delivered exactly once and in order, as part of a decoded event or as raw data, for any mix of read_event, read_raw with any buffer size and wait_event, and any segmentation of arrivals, including a UTF-8 character arriving in pieces; waiting never consumes input. Raw reads return at most the buffer's size and never alter the bytes.",
 ["inputs","histories","schedules"],"every byte stream, arrival segmentation, and sequence of read calls and buffer sizes, also with several reader threads",
 "No test reads input.",
 [UT],[("buffer hand-over","src/unix/terminal.rs read_raw/read_into_buffer/try_read"),("UTF-8 prefix","src/unix/terminal.rs utf8_prefix")],
 [("in_buffer","bytes read but not yet delivered","src/unix/terminal.rs Reader")],["bytes sent versus bytes accounted for by returned events"])
prop("I04","Hostile input can neither crash nor wedge the reader",
 "Whatever bytes arrive, including invalid UTF-8, truncated or absurd sequences and arbitrarily long numbers, reading never panics, and each read call consumes input, waits for more, or reports an error for input that is then skipped: valid input following garbage is always readable again.",
 ["inputs","histories"],"every byte stream and segmentation",
 "No test reads input; malformed input is unbounded.",
 [UT],[("error handling","src/unix/terminal.rs try_read/peek_event/utf8_prefix"),("checked parsing","src/unix/terminal.rs parse_integer/parse_mouse_data")],[],["results of read calls on a known byte stream"])
prop("I05","Waiting honours its timeout and reports input that is there",
 "wait_event returns true when an event or input is already available or arrives within the timeout, and returns false only after the whole timeout (to the millisecond) has elapsed without any; read_event and read_raw likewise return None for lack of input only then. Any Duration up to the maximum is accepted as timeout, and interruptions by unrelated signals neither end nor extend the wait.",
 ["inputs","schedules","fault_sequences"],"every timeout value, arrival time relative to the call, and interruption",
 "No test waits.",
 [UT],[("select loop","src/unix/terminal.rs wait_event"),("timeout conversion","src/unix/terminal.rs to_timeval")],[],["return values and monotonic times of wait and read calls","select/poll calls"])
prop("G01","Every intercepted signal is reported, none is lost or invented",
 "Each signal the program asked to have reported, once received, is returned as a Signal event by a following read, even when several different signals arrive before the program reads; a window-size change is always returned as a Resize event carrying the current size. No event is returned for a signal that was not received or not requested, and repeats of one signal may merge but never vanish entirely.",
 ["histories","schedules","configurations"],"every order and timing of signals relative to reads, every set of requested signals",
 "SignalSet is unit-tested as a set; no signal is ever delivered in a test.",
 [UT,"src/signal.rs"],[("handler","src/unix/terminal.rs handle_signal (extern)"),("pending signal","src/unix/terminal.rs LAST_SIGNAL/take_signal"),("reporting filter","src/unix/terminal.rs TerminalReadGuard::handle_signal")],
 [("LAST_SIGNAL","signal received but not yet read","src/unix/terminal.rs")],["events returned versus signals raised"])
prop("G02","A signal wakes a blocked reader at any instant",
 "An intercepted signal received by a thread that is reading or waiting ends the wait at once, at whatever instant of the call it arrives, including between the check for pending signals and the start of the wait; it is not left unnoticed until the next input or the timeout; and every call leaves the thread's signal mask as it found it.",
 ["schedules"],"every instant within a reading or waiting call",
 "The race window is a few instructions wide and no test delivers a signal.",
 [UT],[("signal check and select","src/unix/terminal.rs wait_event")],[],["signals injected at the entry of the waiting system call"])
prop("G03","A signal handled in the middle of a call disturbs nothing",
 "An intercepted signal may be handled at any instruction of any call (output, drawing, reading, prepare, restore, creating and dropping a Screen), even several times and while locks are held: the handler neither allocates, frees nor waits for a lock and leaves errno as it was; the call completes with the result, output, input and state it has without the signal (a read may in addition report it), and each such signal received while intercepted is still reported exactly as G01 says.",
 ["schedules","histories"],"every instruction of every call, including those of the C library and of the handler itself",
 "No test delivers a signal, and the windows are single instructions.",
 [UT,US],[("handler","src/unix/terminal.rs handle_signal (extern)"),("pending signals","src/unix/terminal.rs LAST_SIGNAL/take_signal")],
 [("LAST_SIGNAL","signal received but not yet read","src/unix/terminal.rs")],["signals raised at chosen instructions (trap flag)","allocations and errno in the handler","results, output, input and state compared with an undisturbed run"])
prop("R01","Descriptors are neither leaked nor closed twice nor taken from others",
 "Opening a Terminal by path and dropping it, or failing to open it or to start a Screen on it for any reason, releases exactly the descriptor it opened, once; a Terminal on standard streams never closes them. After any history of opens, failures and drops the process has the same open descriptors as before. What it opens is not inherited by the programs the process starts, and no descriptor is switched to another mode (such as non-blocking).",
 ["histories","fault_sequences","configurations"],"every sequence of successful and failing opens, screens and drops, every failing system call",
 "No test opens a terminal.",
 [UT,US],[("ownership","src/unix/terminal.rs Terminal::open, Drop for Terminal, close_fd")],
 [("owned_fd","whether the descriptor is closed on drop","src/unix/terminal.rs")],["open and close calls","/proc/self/fd before and after"])
prop("R02","No memory-safety or undefined-behaviour error on any workload",
 "No use of the public API, with any input bytes, text, sizes and interleavings, reads uninitialised or freed memory, accesses memory out of bounds or invokes undefined behaviour.",
 ["inputs","histories","schedules"],"all workloads of the other properties, run under AddressSanitizer, Miri and valgrind",
 "The library uses unsafe code (spare-capacity reads, ioctl, raw descriptors, unchecked UTF-8, signal handlers) that no test executes.",
 [UT],[("unsafe blocks","src/unix/terminal.rs read_into_buffer, get_winsize, ascii_str, close_fd")],[],["AddressSanitizer, Miri and memcheck reports"])
prop("R03","No data race under concurrent use",
 "No interleaving of threads using a Terminal or Screen concurrently through any mix of guards, direct calls, reads, resizes and signals contains a data race.",
 ["schedules"],"every interleaving of concurrent public calls",
 "No test runs two threads.",
 [UT,US],[("mutexes and atomics","src/unix/terminal.rs, src/unix/screen.rs")],[],["ThreadSanitizer reports over stress runs"])
prop("R04","Memory in use stays bounded and is all released",
 "What a Terminal or Screen holds in memory depends on its size, its terminal type and the largest amount of unread input and single writes, not on how long it is used: the same use repeated again and again, including hostile input, resizes, nested preparations and device errors, does not make it grow, and text written through one guard does not pile up, however much and however styled. Once it is dropped, or creating it failed at whatever point, nothing it allocated remains.",
 ["histories","inputs","fault_sequences"],"every use repeated without end, every point at which creation fails",
 "Unit tests do not look at memory, and growth shows only after many repetitions.",
 [UT,US,BUF],[("output buffer","src/unix/terminal.rs write_bytes, expand, flush"),("input buffer","src/unix/terminal.rs read_into_buffer, try_read"),("cells","src/buffer.rs resize")],
 [],["bytes allocated minus bytes freed within library calls (global allocator)"])
prop("D01","SequenceMap behaves as a sorted prefix map",
 "After any sequence of operations a SequenceMap holds exactly the pairs a sorted map would, in key order, with documented results for insert, remove, get, entry operations and construction (first duplicate wins from a Vec, last from an iterator); and find classifies any string exactly: NotFound, Incomplete, Undecided or Found according to whether it is a key and whether a longer key starts with it.",
 ["histories","inputs"],"every sequence of operations over every set of keys, including empty, nested-prefix and non-ASCII keys",
 "Unit tests check a dozen fixed lookups.",
 ["src/sequence.rs"],[("binary search","src/sequence.rs search/find"),("entry API","src/sequence.rs Entry")],
 [("sequences","sorted pairs","src/sequence.rs")],["results of every call versus a reference model"])
prop("D02","SignalSet is an exact set algebra",
 "For all sets and signals, every SignalSet operation and operator (union, intersection, difference, symmetric difference, inverse, containment, insertion, removal, iteration-based construction, assignment forms, equality and debug output) agrees with mathematical sets over the six signals.",
 ["inputs"],"all 64 sets, all pairs of sets and all signals",
 "Unit tests walk through one chain of operations.",
 ["src/signal.rs"],[("bit set","src/signal.rs SignalSet")],[],["results of every operation versus a reference set"])
prop("D03","Text and geometry helpers are exact over their whole domain",
 "Control-character helpers are mutually inverse on all control characters and classify every char correctly, conversion of a char to a Key follows the documented table for every char, prefixes yields exactly all non-empty prefixes of any string in order, and cursor and size arithmetic enumerates the cells of any valid size in order without overflow, with next and previous mutually inverse. Themes and conversions carry exactly the values given.",
 ["inputs"],"every char, string, cursor and valid size",
 "Unit tests cover ASCII and three strings.",
 ["src/util.rs",T],[("helpers","src/util.rs"),("geometry","src/terminal.rs Cursor, Size")],[],["results versus definitions"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+"\n")
print(len(P))
