import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
B='src/buffer.rs';US='src/unix/screen.rs';UT='src/unix/terminal.rs';T='src/terminal.rs';S='src/screen.rs';Q='src/sequence.rs';G='src/signal.rs';U='src/util.rs'
p('C01','A refresh makes the terminal show exactly what the screen holds',
 "After a refresh that reports success (explicit, or on release of a write guard), a terminal that obeys the emitted bytes shows in every cell exactly the text and attributes the screen holds there, and has its cursor at the screen's cursor (at the last cell when that is out of bounds). This holds whatever writes, clears, cursor moves, resizes, earlier refreshes and failed refreshes came before. Cells that have not changed since they were last shown may be skipped only when the terminal still shows them.",
 ['histories','inputs','fault_sequences','configurations'],"every screen size, every history of buffer operations, refreshes, resizes and output errors, every text including wide and combining characters",
 "The existing tests look only at the buffer; none emits bytes, and the difference between what was drawn and what must be redrawn depends on the whole history.",
 [B,US,UT],[('ScreenBuffer::next_cell diff against back_buffer',B),('ScreenWriteGuard::refresh/draw/move_cursor',US),('TerminalWriteGuard::set_attrs/move_cursor/write_str',UT)],
 [('back_buffer','what the terminal is believed to show',B),('real_cursor','where the terminal cursor is believed to be',US),('clear_screen','the terminal must be cleared before drawing',US)],
 ['bytes written to the terminal'])
p('C02','Text written to a screen lands at the cursor, in order, and wraps',
 "Each visible character of written text is stored at the screen's cursor with the current attributes and the cursor advances by the character's width, continuing at the start of the next line when a line is full. A tab writes spaces up to the next multiple of eight columns or the end of the line, '\\r' and '\\n' move the cursor, a combining mark joins the character before the cursor, and other zero-width characters have no effect. No other cell changes.",
 ['inputs','histories'],"every size, cursor, attribute state, buffer content and string",
 "Four tests write a handful of strings on 1x1, 1x10 and 2x10 screens; the effect depends on every column, width class and previous content.",
 [B,'src/priv_util.rs',U],[('ScreenBuffer::write_char / write_str / write_at',B),('is_visible',"src/priv_util.rs")],[('buffer','the cells of the screen',B),('cursor','where the next character goes',B)])
p('C03','Writes outside the screen are ignored and never panic',
 "For any cursor position, target position and text, writing to a screen neither panics nor changes anything outside its cells; the part of the text that fits is stored and the part that does not is dropped. A write addressed to a position outside the screen changes nothing at all.",
 ['inputs'],"every cursor value of the machine word range, every size, every text",
 "One test writes one character past a 1x1 screen; extreme cursors, writes at a position and wide or combining characters at the edges are never tried.",
 [B,T,S],[('try_cursor / try_cursor_at',B),('Cursor::previous / as_index',T),('forwarded screen methods discard OutOfBounds',B)],[('cursor','may be anything, in bounds or not',B)])
p('C04','A wide character always keeps both of its columns',
 "At all times every double-width character held by a screen occupies two adjacent columns of one line; writing over either of them removes the whole character. A wide character that does not fit at the end of a line leaves that column blank and goes to the next line, and on a screen too narrow for it, it is ignored.",
 ['inputs','histories'],"every history of writes, clears and resizes on every size",
 "One test overwrites the first of three wide characters; truncation at line ends, one-column screens and resizes are not tried.",
 [B],[('write_char previous-cell check, insufficient-space branch',B),('resize_buffer',B)],[('buffer','representation invariant: a wide cell is never in the last column and is followed by its blank placeholder',B)])
p('C05','Resizing a screen keeps the overlap and forces a complete redraw',
 "When a screen changes from any size to any other, the cells common to both keep text and attributes (except a wide character cut in half, which becomes blank), all other cells are blank, and cursor and current attributes are unchanged. The next refresh clears the terminal and draws every cell, and a resize event reported by reading is applied to the screen.",
 ['inputs','histories'],"every pair of sizes and every content",
 "No test resizes a buffer.",
 [B,US],[('ScreenBuffer::resize, resize_buffer, new_buffer',B),('Writer::update_size',US)],[('back_buffer','invalidated so that all is redrawn',B),('clear_screen','set by a resize',US)])
p('C06','Attributes of a styled write do not outlive it',
 "Text written with a styled write appears with exactly the foreground, background and style given, and afterwards no attribute is active. On a screen this holds also when the text leaves the screen, and a styled write to a position outside the screen changes neither cells, cursor nor attributes.",
 ['inputs','histories'],"every attribute state before the call, every attribute argument and text, in and out of bounds",
 "No test uses styled writes.",
 [B,UT,T,S],[('ScreenBuffer::write_styled / write_styled_at',B),('TerminalWriteGuard::write_styled',UT)],[('fg, bg, style','current attributes',B)])
p('C07','Text on the terminal carries exactly the attributes requested',
 "After any sequence of calls that set, add, remove or clear colors and styles, the attributes active on the terminal device are exactly those the calls denote: setting replaces, adding and removing touch only the named styles, removing a color or style leaves all others in force. Redundant changes may be omitted, but the attributes the library believes active and those active on the device never differ.",
 ['histories','inputs'],"every sequence of attribute calls from every reachable attribute state (9 x 9 x 16 states, all arguments)",
 "No test emits an attribute; terminals cannot turn off bold or reverse alone, so correctness rests on re-establishing every other attribute on each path.",
 [UT,T],[('set_fg/set_bg/add_style/remove_style/set_style/set_attrs/clear_attributes/clear_fg/clear_bg',UT)],[('fg, bg, cur_style','attributes believed active on the device',UT)],['bytes written to the terminal'])
p('C08','Output reaches the device once and in order',
 "The bytes of all output calls reach the terminal device in call order, none lost and none repeated, however the operating system splits or interrupts the writes. When an output error is reported, what has reached the device is a prefix of what was requested and output still buffered is kept for the next flush.",
 ['inputs','fault_sequences','histories'],"every sequence of writes of every length, every pattern of short writes, interruptions and errors",
 "No test writes to a device; short writes and errors depend on the operating system.",
 [UT],[('write_bytes, flush, write_data',UT)],[('out_buffer','bytes not yet delivered',UT)],['write(2) calls'])
p('C09','Key input is decoded by longest match, losing and inventing nothing',
 "Reading an event from buffered input yields the key of the longest known key sequence that begins the input, or else the key of its first character, and consumes exactly those bytes. An incomplete character is kept until its remaining bytes arrive, and invalid UTF-8 is reported as an error once and discarded, so that later input is still delivered.",
 ['inputs','histories'],"every byte sequence, every way it is split over reads, every set of key sequences",
 "No test reads an event; the decoder's behaviour depends on arbitrary bytes and on the terminal's key sequences.",
 [UT,Q,U],[('peek_event, try_read, utf8_prefix',UT),('SequenceMap::find',Q),('prefixes',U)],[('in_buffer','bytes read and not yet consumed',UT)])
p('C10','Mouse reports decode to the right event and cannot crash the reader',
 "A complete mouse report is decoded to the event it describes: zero-based position, button press or release, wheel or motion, and exactly the modifiers it carries, consuming exactly the report. Any malformed or incomplete report, with numbers of any size, neither panics nor is taken for a mouse event.",
 ['inputs'],"every byte sequence after the mouse introducer",
 "No test decodes a mouse report; numbers of any length arrive from the terminal.",
 [UT],[('parse_mouse_data, parse_integer, mouse_button_event',UT)])
p('C11','A sequence map is a map whose listing stays sorted',
 "Starting from an empty or built map, after any sequence of insertions, removals, in-place modifications and entry operations, lookup of each key gives the value last stored for it, each operation returns the value or pair it replaced or removed, and the listing contains every key once in increasing order. Operations on one key never affect another.",
 ['histories','inputs'],"every history of map operations over every set of string keys, including empty keys and keys that are prefixes of others",
 "The tests use a few fixed keys.",
 [Q],[('insert, remove, get, get_mut, entry and the entry types, binary search',Q)],[('sequences','sorted vector of pairs',Q)])
p('C12','Sequence search reports exact and possible matches correctly',
 "Searching a sequence map for a key reports a complete match exactly when the key is present, with its value, and reports that longer sequences are possible exactly when some other contained key begins with it.",
 ['inputs','histories'],"every map content and every key",
 "One test uses five fixed keys; whether the neighbour alone decides the answer depends on the ordering of all string keys.",
 [Q],[('SequenceMap::find',Q)],[('sequences','sorted vector of pairs',Q)])
p('C13','Building a sequence map keeps the documented duplicate',
 "A sequence map built from a vector contains each key of the vector once, with the value of its first occurrence; one built from an iterator contains each key once, with the value of its last occurrence; both are sorted by key and contain nothing else.",
 ['inputs'],"every vector or iterator of pairs, with duplicates in any order",
 "One test builds one fixed map.",
 [Q],[('From<Vec<(K, V)>>, FromIterator',Q)])
p('C14','Signal sets behave as sets of signals',
 "Insertion, removal, membership, union, intersection, difference, symmetric difference, inverse, inclusion, emptiness, equality and the operators built on them agree with the same operations on mathematical sets of the six signals. No operation yields a set that differs from the one denoted, and the operators, assigning operators and collecting constructors agree with the named methods.",
 ['inputs','histories'],"all pairs of sets, all signals, all signal sequences",
 "The tests combine a few sets.",
 [G],[('SignalSet methods and operators, Signal::as_bit',G)],[('bits','one bit per signal',G)])
p('C15','Control characters and keys map consistently',
 "Every control character maps to its letter and back, for both letter cases, and exactly the characters below U+0020 are control characters. Turning a character into a key gives Escape, Backspace, Enter and Tab for their characters, the control key of the matching lowercase character for other control characters, and the character itself for all others.",
 ['inputs'],"all Unicode scalar values",
 "The test covers the round trip below U+00FF; key conversion is untested.",
 [U,T],[('ctrl, is_ctrl, unctrl_upper, unctrl_lower',U),('Key::from(char)',T)])
p('C16','Cursor stepping and screen geometry are exact',
 "Stepping a cursor forwards or backwards visits the cells of a screen in reading order, gives nothing past either end, and the two steps undo each other within the screen; the out-of-bounds test, first and last positions and area agree with that order. Stepping forward and bounds tests accept every cursor value without overflow, and the checked area is absent exactly when the product does not fit.",
 ['inputs'],"all machine-word sizes and cursors",
 "No test covers them.",
 [T],[('Cursor::next/previous/first/last/is_out_of_bounds/as_index, Size::area/checked_area',T)])
p('C17','Prefix iteration yields every non-empty prefix once, shortest first',
 "Iterating over the prefixes of a string yields exactly its non-empty prefixes ending at character boundaries, each once, from the shortest to the whole string, and then nothing.",
 ['inputs'],"all strings of Unicode scalar values",
 "The test uses ASCII strings only.",
 [U],[('prefixes, Prefixes::next',U)])
p('C18','Restoring undoes preparing, also when nested',
 "After a prepare and the matching restore report success, the terminal's input settings, the process's signal handlers, the keypad and mouse modes and the set of reported signals are what they were before the prepare. This holds for every configuration and for properly nested pairs, and while prepared the settings are those the configuration asks for.",
 ['histories','configurations','inputs'],"every configuration, every initial terminal setting and handler, every nesting",
 "No test touches a terminal device or signal handlers.",
 [UT,US],[('prepare_with_lock, restore_with_lock, enable/disable_mouse/keypad',UT),('Screen::new, Screen::drop',US)],[('PrepareState','what to restore',UT),('resume, report_signals, keypad, mouse','configuration in force',UT)],['tcsetattr, sigaction and write calls'])
p('C19','Input bytes are delivered once and in order',
 "Every byte read from the terminal is delivered to the caller exactly once and in order, as raw data or as part of a decoded event (or is reported as invalid), whatever mixture of raw reads, event reads, waits, signals, timeouts and partial reads occurs. A raw read never reports more bytes than it stored and touches nothing beyond the caller's buffer.",
 ['histories','inputs','fault_sequences'],"every sequence of reads with every buffer size over every input, with every interleaving of signals, interruptions and short reads",
 "No test reads input.",
 [UT],[('read_raw, read_event, read_into_buffer, read_input, try_read',UT)],[('in_buffer','bytes read and not yet consumed',UT)],['read(2) results'])
p('C20','Every timeout is honoured without panic',
 "For any timeout the wait passed to the operating system is the requested duration rounded down to milliseconds, capped only where the operating system's representation ends, and is unlimited exactly when no timeout is given. No duration makes waiting or reading panic, and an elapsed timeout is reported as no event.",
 ['inputs'],"every duration",
 "No test waits.",
 [UT],[('to_timeval, wait_event, read_input',UT)],(),['select(2) arguments'])
p('C21','Signals become exactly the events that were asked for',
 "A caught interrupt, quit, suspend or continue signal is reported as its own signal event if and only if it is in the configured set, and is otherwise consumed without an event. A window-size change is always reported, as a resize event with the new size, and continuing re-applies the configuration in force.",
 ['inputs','configurations','histories'],"every signal, configured set and read operation",
 "No test delivers a signal.",
 [UT],[('handle_signal, conv_signal, take_signal, resume',UT)],[('last signal','most recent signal not yet consumed',UT),('report_signals','configured set',UT)])
p('C22','Formatted writing runs its operations in order and stops at an error',
 "The terminal writing macros perform the operation denoted by each of their arguments, in the order written and once each, on one locked terminal. On a terminal the first failing operation ends the sequence and its error is returned; on a screen all are performed.",
 ['inputs','programs'],"every argument form, every sequence and every position of a failing operation",
 "The examples only compile the macros; none checks order, meaning of each form, or failure.",
 ['src/macros.rs'],[('term_write!, term_writeln!, Chain',"src/macros.rs")])
p('C23','Cursor movement and clearing ask the device for exactly that',
 "Moving the terminal cursor up, down, left or right by n moves the device's cursor by exactly n within the screen, moving by zero emits nothing, moving to a position puts it there, and clearing operations clear exactly the named region. Distances beyond what a terminal can express are clamped without panic, and an operation the terminal lacks returns an error and emits nothing.",
 ['inputs','configurations'],"all distances and positions of machine-word range, terminals with and without each capability",
 "No test emits a movement.",
 [UT,T],[('move_up/down/left/right/move_cursor/move_to_first_column, clear_*, to_u32',UT)],(),['bytes written to the terminal'])
p('C24','Lock attempts report contention and poisoning truthfully',
 "Locking a terminal or screen for reading or writing yields a guard whose outcome is that of the underlying locks: an attempt that cannot proceed reports that it would block, a lock poisoned by a panic is reported as poisoned and still gives access, and otherwise the guard is given plainly. When two locks are taken, either one's contention or poisoning is reported, contention first, and the guard holds both.",
 ['inputs','schedules'],"every combination of outcomes of the underlying locks",
 "No test holds a lock twice or poisons one.",
 ['src/priv_util.rs',US,T,S],[('map_lock_result, map_try_lock_result, map2_*',"src/priv_util.rs")])
p('C25','Concurrent users never interleave their output or deadlock',
 "With any number of threads using one terminal or screen through its locks, the output of one guard is never interleaved with that of another and no schedule of the library's own operations deadlocks.",
 ['schedules'],"every schedule of any number of threads",
 "Schedules are not enumerated by tests.",
 [UT,US],[('Mutex<Reader>, Mutex<Writer> and the lock order reader, writer, screen data',UT)])
p('C26','No caught signal is lost between reads',
 "Every caught signal delivered between two reads is eventually reported by a later read, however many arrive and in whatever order.",
 ['schedules','histories'],"every arrival pattern of asynchronous signals",
 "Asynchronous arrival is not controllable by tests.",
 [UT],[('LAST_SIGNAL, handle_signal, take_signal',UT)],[('last signal','one slot',UT)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
