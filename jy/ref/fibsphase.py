# -*- coding: us-ascii -*-
"""The phases of a FIBS session, hand-coded: before login, message of the day,
running.  step(phase, line) -> (name or None, next phase); None means "ask the
table of running messages"."""

BEFORE, MOTD, RUNNING = 'before login', 'message of the day', 'running'
NAMECHARS = ('abcdefghijklmnopqrstuvwxyz' 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' '_<>')


def is_name(s):
  return len(s) > 0 and not s.strip(NAMECHARS)


def is_number(s):
  return len(s) > 0 and not s.strip('0123456789')


def step(phase, line):
  if phase == BEFORE:
    f = line.split(' ')
    if line.startswith('login:'):
      return 'FIBS_LoginPrompt', BEFORE
    if line == '3':
      return 'CLIP_MOTD_BEGIN', MOTD
    if f[0] == '1' and len(f) >= 4 and is_name(f[1]) and is_number(f[2]):
      return 'CLIP_WELCOME', BEFORE
    if f[0] == '2' and len(f) >= 4 and is_name(f[1]) and f[2] in ('0', '1') and f[3][:1] in ('0', '1'):
      return 'CLIP_OWN_INFO', BEFORE
    if f[0] == '>' and len(f) >= 2 and is_number(f[1][:1]):
      return 'FIBS_FailedLogin', BEFORE
    return 'FIBS_PreLogin', BEFORE
  if phase == MOTD:
    if line == '4':
      return 'CLIP_MOTD_END', RUNNING
    return 'FIBS_MOTD', MOTD
  if line == '           Goodbye.':
    return 'FIBS_Goodbye', BEFORE
  return None, RUNNING


BANNER = ('', 'WELCOME TO THE', '           |  _____| | |        |  __  \\          / ____|', ' ',
          '       This server is on the net to meet people from all countries.',
          'Wednesday, April 09 09:08:53 MEST   ( Wed Apr  9 07:08:53 2008 UTC )',
          'Login timed out.', 'lost', 'log', '1', '2', '1 ', '3 ', '33', '3x', '4', '> ', '>x',
          '1 bad1name 123 host', '2 someplayer 2 1', '2 someplayer', '1 someplayer', '12 someplayer hello',
          '5 monitor - - 0 0 1500.00', 'board:You:someplayer:3', 'You roll 1 and 2',
          '           Goodbye.', '1 wxpygammon x host', '\xe9')
MOTD_LINES = ('', '+----------------------------------+', '|                                  |',
              '| All bots must have a valid email |', '4 ', '44', '4x', ' 4', '3', '1 wxpygammon 120 host',
              'login: ', 'login:', '5 monitor - - 0 0 1500.00', '6', 'You roll 1 and 2', '> 1',
              '           Goodbye.', 'board:You:someplayer:3', '12 someplayer hello', '\xff')


def line(rng, phase, fibsmsg, move):
  """a random line for a phase; move: probability of one that ends it."""
  r = rng.random()
  if phase == BEFORE:
    if r < move:
      return '3'
    if r < move + 0.3:
      return rng.choice(('login: ', 'login: ', 'login:', '1 wxpygammon 1207724539 host.net',
                         '2 wxpygammon 1 1 0 0 0 0 1 1 0 0 0 0 1 1500.00 0 0 0 1 0 UTC',
                         '> 1 someplayer', '> 99', '1 a<b>_C 0 x', '2 X 0 0'))
    if r < move + 0.4:
      return fibsmsg.message(rng)[1]
    return rng.choice(BANNER)
  if phase == MOTD:
    if r < move:
      return '4'
    if r < move + 0.1:
      return fibsmsg.message(rng)[1]
    return rng.choice(MOTD_LINES)
  return None
