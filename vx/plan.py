"""Which contracts decide which property.

PLAN[id] = dict(
  level    level claimed while every obligation is discharged
  units    {unit: [function names] or None for every function of the unit}
  outside  what the property also depends on that no contract covers; the search covers it
)
"""
G, R, T = 'TerminalWriteGuard::', 'TerminalReadGuard::', 'Terminal::'
CURSOR = ['Cursor::previous', 'Cursor::is_out_of_bounds']
CELL = ['Cell::new', 'Default for Cell::default', 'Cell::is_wide', 'Cell::first_char', 'Cell::attrs', 'Cell::text']
WRITE = CURSOR + CELL + ['is_visible', 'char_width', 'is_combining_mark', 'ScreenBuffer::cell_mut', 'ScreenBuffer::set_cell', 'ScreenBuffer::try_cursor',
         'ScreenBuffer::write_char', 'ScreenBuffer::write_str']
ATTR = ['ScreenBuffer::clear_attributes', 'ScreenBuffer::add_style', 'ScreenBuffer::remove_style', 'ScreenBuffer::set_style',
        'ScreenBuffer::set_fg', 'ScreenBuffer::set_bg', 'ScreenBuffer::set_theme']
MOVE = ['ScreenBuffer::cursor', 'ScreenBuffer::set_cursor', 'ScreenBuffer::next_line']
SIZE = ['new_buffer', 'resize_buffer', 'ScreenBuffer::resize', 'ScreenBuffer::size']
AREA = ['Size::area', 'Size::checked_area']
GEOM = ['Cursor::next', 'Cursor::previous', 'Cursor::first', 'Cursor::last', 'Cursor::is_out_of_bounds', 'Cursor::as_index', 'From for Cursor::from',
        'Size::area', 'Size::checked_area']
SEQ = ['SequenceMap::new', 'SequenceMap::with_capacity', 'SequenceMap::sequences', 'SequenceMap::search', 'SequenceMap::get']
ENTRY = ['OccupiedEntry::' + f for f in ('key', 'get', 'get_mut', 'insert', 'into_mut', 'remove', 'remove_entry')] + \
        ['VacantEntry::' + f for f in ('key', 'into_key', 'insert')] + ['Entry::' + f for f in ('key', 'or_insert', 'or_insert_with', 'and_modify')]
OUT = [G + f for f in ('write_data', 'flush', 'write_bytes', 'write_str', 'write_char', 'expand')]
TATTR = [G + f for f in ('clear_attributes', 'set_fg', 'set_bg', 'add_style', 'remove_style', 'set_style', 'set_theme', 'set_attrs', 'clear_fg', 'clear_bg', 'set_fg_color', 'set_bg_color')] + ['color_code']
STYLED = [G + f for f in ('set_attrs', 'set_fg', 'set_bg', 'set_style', 'add_style', 'remove_style', 'clear_attributes', 'clear_fg', 'clear_bg', 'set_fg_color', 'set_bg_color', 'write_styled')] + ['color_code']
TMOVE = ['to_u32'] + [G + f for f in ('move_up', 'move_down', 'move_left', 'move_right', 'move_to_first_column', 'move_cursor', 'clear_screen', 'clear_to_line_end', 'clear_to_screen_end')]
SCR = [G + f for f in ('enter_screen', 'exit_screen', 'set_cursor_mode', 'size')] + ['get_winsize']
MODE = [G + f for f in ('enable_mouse', 'disable_mouse', 'enable_keypad', 'disable_keypad')] + ['is_xterm', 'Terminal::name', 'Terminal::is_xterm']
READ = [R + f for f in ('read_into_buffer', 'read_input', 'try_read', 'read_event', 'read_raw')] + ['Terminal::read_event', 'Terminal::read_raw']
WAIT = ['to_timeval'] + [R + f for f in ('wait_event', 'read_input', 'read_into_buffer', 'read_event', 'read_raw')] + ['Terminal::wait_event', 'Terminal::read_event', 'Terminal::read_raw']
SIG = ['conv_signal', 'get_signal', 'take_signal', 'handle_signal', R + 'handle_signal', R + 'resume', R + 'prepare', R + 'read_input', R + 'read_into_buffer', R + 'read_event', R + 'read_raw', 'Terminal::size', 'Terminal::prepare', 'Terminal::read_event', 'Terminal::read_raw']
LOCKS = ['map_lock_result', 'map_try_lock_result', 'map2_lock_result', 'map2_try_lock_result'] + [t + f for t in ('Terminal::', 'Screen::') for f in ('lock_read', 'lock_write', 'try_lock_read', 'try_lock_write')] + \
        [t + 'Guard::new' for t in ('TerminalRead', 'TerminalWrite', 'ScreenRead', 'ScreenWrite')]
SETS = ['Signal::as_bit', 'Signal::all_bits'] + ['SignalSet::' + f for f in 'new all contains contains_all intersects is_empty insert remove set difference symmetric_difference intersection union inverse'.split()] + \
       ['From for SignalSet::from', 'BitOr for Signal::bitor', 'Not for Signal::not'] + [f'{t} for SignalSet::{f}' for t, f in (('BitAnd', 'bitand'), ('BitOr', 'bitor'), ('BitXor', 'bitxor'), ('Sub', 'sub'), ('Not', 'not'),
        ('BitAndAssign', 'bitand_assign'), ('BitOrAssign', 'bitor_assign'), ('BitXorAssign', 'bitxor_assign'), ('SubAssign', 'sub_assign'))]
CTRL = ['ctrl', 'is_ctrl', 'unctrl_upper', 'unctrl_lower', 'From for Key::from']
TT = [T + f for f in ('clear_attributes', 'set_fg', 'set_bg', 'add_style', 'remove_style', 'set_style', 'set_theme')]
TO = [T + f for f in ('write_str', 'write_char')]
PT = lambda l: {'pterm': [T + f for f in l], 'pwguard': [G + f for f in l]}
ATTRS = ['clear_attributes', 'set_fg', 'set_bg', 'add_style', 'remove_style', 'set_style', 'set_theme', 'bold', 'italic', 'underline', 'reverse', 'write_str', 'write_char', 'write_fmt', 'write_styled']
MOVES = ['move_up', 'move_down', 'move_left', 'move_right', 'move_to_first_column', 'clear_screen', 'clear_to_line_end', 'clear_to_screen_end', 'set_cursor_mode']
TM = [T + f for f in ('move_up', 'move_down', 'move_left', 'move_right', 'move_to_first_column', 'clear_screen', 'clear_to_line_end', 'clear_to_screen_end')]
PREV = [T + 'read_event', R + 'read_event']
PRAW = ['TerminalExt for Terminal::read_raw', 'TerminalExt for TerminalReadGuard::read_raw']
S, W = 'Screen::', 'ScreenWriteGuard::'
AT = ['clear_attributes', 'add_style', 'remove_style', 'set_style', 'set_fg', 'set_bg', 'set_theme']
EASY = ['bold', 'italic', 'underline', 'reverse']
WR = ['write_char', 'write_str', 'write_fmt', 'write_at', 'write_styled', 'write_styled_at']
PASS = ['set_cursor', 'next_line', 'clear_screen'] + AT + WR + EASY
def SC(l):
    """functions of Screen and its write guard, on the system's side and the public one"""
    return {'sscreen': [x + f for x in (S, W) for f in l if f not in EASY + ['write_fmt']], 'pscreen': [S + f for f in l], 'psguard': [W + f for f in l]}
def join(*ds):
    r = {}
    for d in ds:
        for k, v in d.items(): r[k] = None if v is None or r.get(k, 0) is None else r.get(k, []) + [f for f in v if f not in r.get(k, [])]
    return r
# reading through a Screen or its read guard
SREAD = {'sscreen': ['Screen::read_event', 'ScreenReadGuard::read_event', 'Screen::read_raw', 'ScreenReadGuard::read_raw'],
         'pscreen': ['Screen::read_event', 'TerminalExt for Screen::read_raw'], 'psguard': ['ScreenReadGuard::read_event', 'TerminalExt for ScreenReadGuard::read_raw']}
SWAIT = {'sscreen': ['Screen::wait_event', 'ScreenReadGuard::wait_event'], 'pscreen': ['Screen::wait_event'], 'psguard': ['ScreenReadGuard::wait_event']}
SNEW = {'sscreen': ['Screen::new'], 'pscreen': ['Screen::with_terminal']}
EVENT = {k: [f for f in v if f.endswith('read_event')] for k, v in SREAD.items()}
SHOW = ['ScreenBuffer::next_cell', 'ScreenBuffer::indices', 'ScreenBuffer::invalidate', 'Cell::is_wide', 'Cell::first_char', 'Cell::invalid']
PLAN = {
    'C01': dict(level='proof', units={'screen': None, 'sscreen': None, 'pscreen': None, 'psguard': None,
                                      'buffer': SHOW + WRITE + ['ScreenBuffer::write_at', 'ScreenBuffer::try_cursor_at', 'ScreenBuffer::new', 'ScreenBuffer::clear_screen', 'ScreenBuffer::write_styled', 'ScreenBuffer::write_styled_at'] + MOVE + ATTR + SIZE,
                                      'writer': OUT + TATTR + [G + 'move_cursor', G + 'clear_screen', G + 'enter_screen', 'to_u32'], 'reader': ['Terminal::size', 'Terminal::prepare', R + 'prepare']}, outside=[]),
    'C02': dict(level='proof', units=join({'buffer': WRITE + ['ScreenBuffer::write_at', 'ScreenBuffer::try_cursor_at', 'ScreenBuffer::new', 'ScreenBuffer::clear_screen'] + MOVE + ATTR},
                                          SC(['set_cursor', 'next_line', 'cursor', 'clear_screen'] + AT + WR[:4] + EASY)), outside=[]),
    'C03': dict(level='proof', units=join({'buffer': WRITE + ['ScreenBuffer::write_at', 'ScreenBuffer::try_cursor_at', 'ScreenBuffer::write_styled', 'ScreenBuffer::write_styled_at'] + MOVE}, SC(['set_cursor', 'next_line', 'cursor'] + WR)), outside=[]),
    'C04': dict(level='proof', units=join({'buffer': WRITE + ['ScreenBuffer::write_at', 'ScreenBuffer::write_styled', 'ScreenBuffer::write_styled_at', 'ScreenBuffer::new', 'ScreenBuffer::clear_screen', 'ScreenBuffer::next_cell'] + SIZE + AREA}, SC(WR + ['clear_screen', 'size'])), outside=[]),
    'C05': dict(level='proof', units=join({'buffer': SIZE + AREA + ['ScreenBuffer::invalidate', 'Cell::invalid', 'Default for Cell::default', 'Cell::is_wide'],
                                           'screen': ['Writer::update_size', W + 'draw', W + 'refresh']}, SREAD, SC(['size'])), outside=[]),
    'C06': dict(level='proof', units=join({'buffer': WRITE + ['ScreenBuffer::clear_attributes', 'ScreenBuffer::write_styled', 'ScreenBuffer::write_styled_at', 'ScreenBuffer::try_cursor_at'],
                                           'writer': OUT + STYLED, 'terminal': [T + 'write_styled']}, PT(['write_styled']), SC(['write_styled', 'write_styled_at', 'clear_attributes'])), outside=[]),
    'C07': dict(level='proof', units={'writer': OUT + TATTR + [G + 'write_styled', G + 'enter_screen'], 'terminal': TT + TO + [T + 'write_styled', T + 'enter_screen'], **PT(ATTRS), 'keys': ['Writer::new', 'Terminal::new']}, outside=[]),
    'C08': dict(level='proof', units={'writer': OUT + TATTR + TMOVE + SCR, 'terminal': None, 'pterm': None, 'pwguard': None, 'keys': ['Writer::new', 'Terminal::new']}, outside=[]),
    'C09': dict(level='proof', units={'events': ['peek_event', 'utf8_prefix', 'invalid_prefix_len'], 'seq': SEQ + ['SequenceMap::find', 'FindResult::cloned', 'SequenceMap::insert', 'From for SequenceMap::from', 'FromIterator for SequenceMap::from_iter'],
                                      'util': ['ctrl', 'is_ctrl', 'unctrl_upper', 'unctrl_lower', 'From for Key::from', 'prefixes', 'Iterator for Prefixes::next'],
                                      'keys': ['sequences', 'ascii_str', 'Terminal::new'], 'reader': [R + 'try_read', R + 'read_event', 'Terminal::read_event'], 'pread': PREV, **EVENT},
                outside=[]),
    'C10': dict(level='proof', units={'mouse': None, 'events': ['peek_event', 'utf8_prefix'], 'keys': ['sequences', 'is_xterm', 'Terminal::new'], 'reader': [R + 'try_read', R + 'read_event', 'Terminal::read_event'], 'pread': PREV, **EVENT}, outside=[]),
    'C11': dict(level='proof', units={'seq': SEQ + ['SequenceMap::insert', 'SequenceMap::remove', 'SequenceMap::get_mut', 'SequenceMap::entry'] + ENTRY}, outside=['SequenceMap::sequences_mut and the derived Clone, Debug and Default']),
    'C12': dict(level='proof', units={'seq': SEQ + ['SequenceMap::find', 'FindResult::cloned']}, outside=[]),
    'C13': dict(level='proof', units={'seq': SEQ + ['SequenceMap::insert', 'From for SequenceMap::from', 'FromIterator for SequenceMap::from_iter']}, outside=[]),
    'C14': dict(level='proof', units={'signal': None}, outside=[], complete=SETS),
    'C15': dict(level='proof', units={'util': CTRL}, outside=[], complete=CTRL),
    'C16': dict(level='proof', units={'geom': GEOM}, outside=[]),
    'C17': dict(level='proof', units={'util': ['prefixes', 'Iterator for Prefixes::next']}, outside=[]),
    'C18': dict(level='proof', units={'writer': OUT + MODE, 'modes': [R + 'prepare_with_lock', R + 'restore_with_lock'], 'signal': ['SignalSet::new', 'SignalSet::contains'],
                                      'reader': [R + 'prepare', R + 'restore', 'Terminal::prepare', 'Terminal::restore', 'Terminal::size'], **SNEW, 'pread': [x + f for x in (T, R) for f in ('prepare', 'restore')] + [R + 'prepare_with_lock', R + 'restore_with_lock'], 'keys': ['Terminal::new']}, outside=[]),
    'C19': dict(level='proof', units={**SREAD, 'reader': READ, 'pread': PREV + PRAW, 'keys': ['Terminal::new'], 'events': ['peek_event', 'utf8_prefix', 'invalid_prefix_len']}, outside=[]),
    'C20': dict(level='proof', units=join({'reader': WAIT, 'pread': PREV + PRAW + [T + 'wait_event', R + 'wait_event']}, SREAD, SWAIT), outside=[]),
    'C21': dict(level='proof', units={**SREAD, 'reader': SIG, 'pread': PREV + PRAW + [T + 'size', T + 'prepare', R + 'prepare', R + 'prepare_with_lock'], 'pwguard': [G + 'size'], 'modes': [R + 'prepare_with_lock', R + 'restore_with_lock'], 'signal': ['SignalSet::new', 'SignalSet::contains'], 'writer': ['get_winsize', G + 'size'], 'keys': ['Terminal::new']}, outside=[]),
    'C22': dict(level='proof', units={'twrite': None, 'swrite': None, 'plocks': ['Terminal::borrow_term_write_guard'], 'pslocks': ['Screen::borrow_term_write_guard'],
                                      'pwguard': [G + f for f in ['borrow_term_write_guard'] + ATTRS], 'psguard': [W + f for f in ['borrow_term_write_guard'] + AT + ['write_str', 'write_fmt']]}, outside=[]),
    'C24': dict(level='proof', units={'locks': None, 'slocks': None, 'plocks': None, 'pslocks': None}, outside=[], complete=LOCKS),
    'C23': dict(level='proof', units=join({'writer': OUT + TMOVE + SCR, 'terminal': TM + [T + 'enter_screen', T + 'exit_screen', T + 'set_cursor_mode', 'Drop for Terminal::drop'], 'screen': [W + 'set_cursor_mode']}, PT(MOVES), {'sscreen': [S + 'set_cursor_mode'], 'pscreen': [S + 'set_cursor_mode'], 'psguard': [W + 'set_cursor_mode']}), outside=[]),
}
for n in range(7, 25):
    PLAN.setdefault(f'C{n:02d}', dict(level='exploration', units={}, outside=[]))

import re
# a function several properties depend on: which of its obligations are about which
OUTPUT = r'grows\(|silent\(|asked_by\(|tot\(|\.sent\b|out_buffer'
WHOLE = {'C08': set(OUT + TO + [G + 'exit_screen', T + 'exit_screen', 'Drop for TerminalWriteGuard::drop', 'Drop for Terminal::drop', 'Writer::new', 'Terminal::new'])}
WHOLE['C08'] -= {'Drop for Terminal::drop'}
def concerns(e, pid, fn=''):
    """an obligation marked `// [C02 C03]` in the contract belongs to those properties only; of functions that only
    pass output on, C08 takes what is about the order of output, and C06, C07 and C23 the rest"""
    o = e['obligation']
    m = re.search(r'//\s*\[(C\d\d(?: C\d\d)*)\]', o)
    if m: return pid in m.group(1).split()
    if pid == 'C01' and (fn in THROUGH or fn.startswith('ScreenBuffer::') and fn not in SHOW): return False
    if pid == 'C05' and fn in (W + 'draw', W + 'refresh'): return bool(re.search(r'wiped|clear_screen', o))
    if pid == 'C08' and fn not in WHOLE['C08']: return bool(re.search(OUTPUT, o))
    if pid in ('C06', 'C07', 'C23') and fn not in OUT + TO: return not re.match(r'[^:]*: (?:ensures )?(?:!final\(w\)\.writing, )?grows\([^)]*(?:\([^)]*\)[^)]*)*\),?(?: / .*|\s*)$', o)
    return True

THROUGH = {x + f for x in (S, W) for f in PASS} | {x + f for x in ('Screen::', 'ScreenReadGuard::') for f in ('read_event', 'read_raw', 'wait_event')} | \
          {'TerminalExt for Screen::read_raw', 'TerminalExt for ScreenReadGuard::read_raw', 'Terminal::size', 'Terminal::prepare', R + 'prepare'}
