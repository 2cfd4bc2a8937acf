# -*- coding: us-ascii -*-
"""What a FIBS server says in a running session, and the name of each kind of
message, after the FIBS client protocol description.

%P %Q: players, %N number, %S points ("1 point", "2 points"), %D die, %M two to four,
%X a side, %V a play, %R rating, %H host, %T free text."""

RUN = r"""
FIBS_Empty|
FIBS_YouRoll|You roll %D and %D.
FIBS_PlayerRolls|%P rolls %D and %D.
FIBS_RollOrDouble|It's your turn to roll or double.
FIBS_RollOrDouble|It's your turn. Please roll or double
FIBS_AcceptRejectDouble|%P doubles. Type 'accept' or 'reject'.
FIBS_Doubles|%P doubles.
FIBS_PleaseMove|Please move %M pieces.
FIBS_PleaseMove|Please move 1 piece.
FIBS_PleaseMove|Please move 1 pieces.
FIBS_PlayerMoves|%P moves %V .
FIBS_BearingOff|Bearing off: %V
FIBS_YouReject|You reject. The game continues.
FIBS_YouStopWatching|%P logs out. You're not watching anymore.
FIBS_YouStopWatching|%P drops connection. You're not watching anymore.
FIBS_YouStopWatching|%P logs out.. You're not watching anymore.
FIBS_YouStopWatching|You stop watching %P.
FIBS_YouStopWatching|** You stop watching %P.
FIBS_OpponentLogsOut|%P logs out. The game was saved.
FIBS_OpponentLogsOut|%P drops connection. The game was saved.
FIBS_OnlyPossibleMove|The only possible move is %V .
FIBS_FirstRoll|%P rolled %D, %Q rolled %D
FIBS_MakesFirstMove|%P makes the first move.
FIBS_YouDouble|You double. Please wait for %P to accept or reject.
FIBS_PlayerWantsToResign|%P wants to resign. You will win %S. Type 'accept' or 'reject'.
FIBS_PlayerWantsToResign|%P wants to resign.
FIBS_WatchResign|%P wants to resign. %Q will win %S.
FIBS_YouResign|You want to resign. %P will win %N .
FIBS_ResumeMatchAck5|You are now playing with %P. Your running match was loaded.
FIBS_JoinNextGame|Type 'join' if you want to play the next game, type 'leave' if you don't.
FIBS_NewMatchRequest|%P wants to play a %N point match with you.
FIBS_WARNINGSavedMatch|WARNING: Don't accept if you want to continue your saved match with %P.
FIBS_WARNINGSavedMatch|** WARNING: Don't accept if you want to continue your saved match!
FIBS_ResignRefused|%P rejects. The game continues.
FIBS_MatchLength|match length: %N
FIBS_TypeJoin|Type 'join %P' to accept.
FIBS_YouAreWatching|You're now watching %P.
FIBS_PlayerStartsWatching|%P starts watching %Q.
FIBS_PlayerStartsWatching|%P is watching you.
FIBS_PlayerStopsWatching|%P stops watching %Q.
FIBS_PlayerIsWatching|%P is watching %Q.
FIBS_ResignWins|%P gives up. %Q wins %S.
FIBS_ResignYouWin|%P gives up. You win %S.
FIBS_YouAcceptAndWin|You accept and win %S.
FIBS_AcceptWins|%P accepts and wins %S.
FIBS_PlayersStartingMatch|%P and %Q start a %N point match.
FIBS_StartingNewGame|Starting a new game with %P.
FIBS_YouGiveUp|You give up. %P wins %S.
FIBS_YouWinMatch|You win the %N point match 7-3 .
FIBS_PlayerWinsMatch|%P wins the %N point match 3-0 .
FIBS_ResumingUnlimitedMatch|%P and %Q are resuming their unlimited match.
FIBS_ResumingLimitedMatch|%P and %Q are resuming their %N-point match.
FIBS_MatchResult|%P wins a %N point match against %Q  11-6 .
FIBS_BAD_AcceptDouble|%P accepts the double. The cube shows 2.%Q rolls 1 and 2.
FIBS_BAD_AcceptDouble|You accept the double. The cube shows %N.%Q rolls %D and %D.
FIBS_BAD_AcceptDouble|%P accepts the double. The cube shows %N.%Q rolls %D and %D.
FIBS_YouAcceptDouble|You accept the double. The cube shows %N.
FIBS_PlayerAcceptsDouble|%P accepts the double. The cube shows %N.
FIBS_PlayerAcceptsDouble|%P accepts the double.
FIBS_ResumeMatchRequest|%P wants to resume a saved match with you.
FIBS_ResumeMatchAck0|%P has joined you. Your running match was loaded.
FIBS_ResumeMatchAck0|** Player %P has joined you. Your running match was loaded.
FIBS_YouWinGame|You win the game and get %S.
FIBS_UnlimitedInvite|%P wants to play an unlimted match with you.
FIBS_PlayerWinsGame|%P wins the game and gets %S. Sorry.
FIBS_PlayerWinsGame|%P wins the game and gets %S.
FIBS_PlayersStartingUnlimitedMatch|%P and %Q start an unlimited match.
FIBS_ReportLimitedMatch|%P        -       %Q (%N point match 2-2)
FIBS_ReportUnlimitedMatch|%P        -       %Q (unlimited 12-5)
FIBS_ShowMovesStart|%P is X - %Q is O
FIBS_ShowMovesRoll|%X: (%D %D) %V
FIBS_ShowMovesWins|%X: wins
FIBS_ShowMovesDoubles|%X: doubles
FIBS_ShowMovesAccepts|%X: accepts
FIBS_ShowMovesRejects|%X: rejects
FIBS_ShowMovesOther|%X: resigns
FIBS_ShowMovesOther|%X: can't move
FIBS_ScoreUpdate|score in %N point match: %P-3 %Q-5
FIBS_MatchStart|Score is 1-0 in a %N point match.
FIBS_Settings|Settings of variables:
FIBS_Turn|turn: %P.
FIBS_Boardstyle|boardstyle: 3
FIBS_Linelength|linelength: 0
FIBS_Pagelength|pagelength: 0
FIBS_Redoubles|redoubles: none
FIBS_Sortwho|sortwho: login
FIBS_Timezone|timezone: UTC
FIBS_CantMove|%P can't move.
FIBS_CantMove|You can't move.
FIBS_ListOfGames|List of games:
FIBS_PlayerInfoStart|Information about %P:
FIBS_EmailAddress|  Email address: a@b.c
FIBS_NoEmail|  No email address.
FIBS_WavesAgain|%P waves goodbye again.
FIBS_WavesAgain|You wave goodbye again and log out.
FIBS_Waves|%P waves goodbye.
FIBS_Waves|You wave goodbye.
FIBS_NoSavedGames|no saved games.
FIBS_TypeBack|You're away. Please type 'back'
FIBS_SavedMatch|  %P            5                2 -  3
FIBS_SavedMatchPlaying| *%P            5                2 -  3
FIBS_PlayerIsWaitingForYou|%P is waiting for you to log in.
FIBS_IsAway|%P is away: %T
FIBS_Done|Done.
FIBS_YourTurnToMove|It's your turn to move.
FIBS_SavedMatchesHeader|  opponent          matchlength   score (your points first)
FIBS_SavedScoreHeader|opponent          matchlength   score (your points first)
FIBS_MessagesForYou|There are messages for you:
FIBS_RedoublesSetTo|Value of 'redoubles' set to %N.
FIBS_DoublingCubeNow|The number on the doubling cube is now %N.
FIBS_FailedLogin|> %N
FIBS_Average|Time (UTC)  average min max
FIBS_Average|10:05-11:05   152  140  170
FIBS_DiceTest|n: 3
FIBS_DiceTest|S: 3
FIBS_DiceTest|T: 3
FIBS_DiceTest|%D-1 45
FIBS_DiceTest|%D: 4567
FIBS_LastLogout|  Last logout: Tuesday, April 08 10:11:12 2008
FIBS_LastLogin|  Last login:  Tuesday, April 08 10:11:12 2008 from %H
FIBS_RatingCalcStart|rating calculation:
FIBS_RatingCalcInfo|Probability that underdog wins: P=0.505861
FIBS_RatingCalcInfo|P=0.505861 is 1-Pu if underdog wins and Pu if favorite wins
FIBS_RatingCalcInfo|Experience: %P 500 - %Q 5832
FIBS_RatingCalcInfo|K=max(1 ,    -Experience/100+5) for %P: 1.000000
FIBS_RatingCalcInfo|rating difference D=12.3
FIBS_RatingCalcInfo|change for %P: 4*K*sqrt(N)*P=2.023443
FIBS_RatingCalcInfo|match length  N=7
FIBS_WatchingHeader|Watching players:
FIBS_SettingsHeader|The current settings are:
FIBS_AwayListHeader|The following users are away:
FIBS_RatingExperience|  Rating: %R Experience: %N
FIBS_NotLoggedIn|  Not logged in right now.
FIBS_IsPlayingWith|%P is playing with %Q.
FIBS_IsPlayingWith|  %P is playing with %Q.
FIBS_StillLoggedIn|  Still logged in. 2:12 minutes idle.
FIBS_NoOneIsAway|None of the users is away.
FIBS_PlayerListHeader|No  S  username        rating  exp login    idle  from
FIBS_RatingsHeader| rank name            rating    Experience
FIBS_Timeout|Connection timed out.
FIBS_NoInfo|No information found on user %P.
FIBS_Junk|Closed old connection with user %P.
FIBS_Junk|** You tell %P: %T
FIBS_Junk|** Please wait for %P to join too.
CLIP_WHO_INFO|5 %P - - 0 0 %R 0 18 1199472484 %H - a@b.c
CLIP_WHO_INFO|5 %P - - 1 1 %R %N 18 1199472484 %H - -
CLIP_WHO_INFO|5 %P %Q - 0 1 %R %N 18 1199472484 %H MGNU -
CLIP_WHO_INFO|5 %P %Q - 1 0 %R 7615 12 1207472950 %H - bots@x.com
CLIP_WHO_INFO|5 %P - %Q 1 0 %R 7615 12 1207472950 %H xx -
CLIP_WHO_END|6
CLIP_SHOUTS|13 %P %T
CLIP_SAYS|12 %P %T
CLIP_WHISPERS|14 %P %T
CLIP_KIBITZES|15 %P %T
CLIP_YOU_SAY|16 %P %T
CLIP_YOU_SHOUT|17 %T
CLIP_YOU_WHISPER|18 %T
CLIP_YOU_KIBITZ|19 %T
CLIP_LOGIN|7 %P %P logs in.
CLIP_LOGOUT|8 %P %P logs out.
CLIP_LOGOUT|8 %P %P drops connection.
CLIP_MESSAGE|9 %P 1207724539 %T
CLIP_MESSAGE_DELIVERED|10 %P
CLIP_MESSAGE_SAVED|11 %P
FIBS_Stat|%N00 bytes received
FIBS_Stat|%N00 accounts
FIBS_Stat|%N00 ratings saved. reset log Tue Apr
FIBS_Stat|%N00 registered users.
FIBS_Stat|%N00(%N) saved games check by cron
FIBS_Username|** User %P not found.
FIBS_YouGag|** You gag %P.
FIBS_YouUngag|** You ungag %P.
FIBS_YouBlind|** You blind %P.
FIBS_YouUnblind|** You unblind %P.
FIBS_UseToggleReady|** Use 'toggle ready' first.
FIBS_NewMatchAck9|** You are now playing an unlimited match with %P
FIBS_NewMatchAck10|** You are now playing a %N point match with %P
FIBS_NewMatchAck2|** Player %P has joined you for a %N point match.
FIBS_YouTerminated|** You terminated the game. The game was saved.
FIBS_OpponentLeftGame|** Player %P has left the game. The game was saved.
FIBS_PlayerLeftGame|%P has left the game.
FIBS_PlayerLeftGame|** Player %P has left the game.
FIBS_YouInvited|** You invited %P to a %N point match.
FIBS_YourLastLogin|** Last login: Tuesday
FIBS_NoOne/FIBS_NoUser|** There is no one called %P.
FIBS_PlayerRefusingGames|** %P is refusing games.
FIBS_NotWatching|** You're not watching.
FIBS_NotWatchingPlaying|** You're not watching or playing.
FIBS_NotPlaying|** You're not playing.
FIBS_AlreadyPlaying|** %P is already playing with someone else.
FIBS_DidntInvite|** %P didn't invite you.
FIBS_BadMove|** You can't remove this piece from 5.
FIBS_CantMoveFirstMove|** You can't move 3 points in your first move.
FIBS_CantShout|** Please type 'toggle silent' again before you shout.
FIBS_MustMove|** You must give %M moves.
FIBS_MustMove|** You must give 1 moves.
FIBS_MustComeIn|** You have to remove pieces from the bar in your first move.
FIBS_UsersHeardYou|** %N users heard you.
FIBS_UsersHeardYou|** 1 user heard you.
FIBS_SavedMatchReady|**%P            5                2 -  3
FIBS_NotYourTurnToRoll|** It's not your turn to roll the dice.
FIBS_NotYourTurnToMove|** It's not your turn to move.
FIBS_UnknownCommand|** Unknown command: '%T'
FIBS_CantWatch|** You can't watch another game while you're playing.
FIBS_CantInviteSelf|** You can't invite yourself.
FIBS_DontKnowUser|** Don't know user %P.
FIBS_MessageUsage|** usage: message <user> <text>
FIBS_PlayerNotPlaying|** %P is not playing.
FIBS_CantTalk|** You can't talk if you won't listen.
FIBS_WontListen|** %P won't listen to you.
FIBS_Why|** Why would you want to do that?
FIBS_Why|*** Why would you want to do that?
FIBS_Ratings|*   1   %P            %R   12345
FIBS_NoSavedMatch|** There's no saved match with %P.
FIBS_CantGagYourself|** You talk too much, don't you?
FIBS_CantBlindYourself|** You can't read this message now, can you?
"""

TOGGLES = r"""
Allowpip|allowpip|** You allow the use the server's 'pip' command.|** You don't allow the use of the server's 'pip' command.
Autoboard|autoboard|** The board will be refreshed after every move.|** The board won't be refreshed after every move.
Autodouble|autodouble|** You agree that doublets during opening double the cube.|** You don't agree that doublets during opening double the cube.
Automove|automove|** Forced moves will be done automatically.|** Forced moves won't be done automatically.
Bell|bell|** Your terminal will ring the bell if someone talks to you or invites you|** Your terminal won't ring the bell if someone talks to you or invites you
Crawford|crawford|** You insist on playing with the Crawford rule.|** You would like to play without using the Crawford rule.
Double|double|** You will be asked if you want to double.|** You won't be asked if you want to double.
Moreboards|moreboards|** Will send rawboards after rolling.|** Won't send rawboards after rolling.
Moves|moves|** You want a list of moves after this game.|** You won't see a list of moves after this game.
Greedy|greedy|** Will use automatic greedy bearoffs.|** Won't use automatic greedy bearoffs.
Notify|notify|** You'll be notified when new users log in.|** You won't be notified when new users log in.
Ratings|ratings|** You'll see how the rating changes are calculated.|** You won't see how the rating changes are calculated.
Ready|ready|** You're now ready to invite or join someone.|** You're now refusing to play with someone.
Report|report|** You will be informed about starting and ending matches.|** You won't be informed about starting and ending matches.
Silent|silent|** You won't hear what other players shout.|** You will hear what other players shout.
Telnet|telnet|** You use telnet and don't need extra 'newlines'.|** You use a client program and need extra 'newlines'.
Wrap|wrap|** Your terminal knows how to wrap long lines.|** The server will wrap long lines.
"""


def table():
  out = []
  for line in RUN.splitlines():
    if line:
      names, text = line.split('|', 1)
      out.append((tuple(names.split('/')), text))
  for line in TOGGLES.splitlines():
    if line:
      name, var, on, off = line.split('|')
      out.append((('FIBS_%sTrue' % name,), var.ljust(16) + 'YES'))
      out.append((('FIBS_%sFalse' % name,), var.ljust(16) + 'NO'))
      out.append((('FIBS_%sTrue' % name,), on))
      out.append((('FIBS_%sFalse' % name,), off))
  out.append((('FIBS_ClearScreen',), '\x1b[;H\x1b[2J'))
  out.append((('FIBS_ClearScreen',), 'x[;Hx[2J'))
  return out


TABLE = table()

NAMES = ('someplayer', 'spooky', 'donzbot_IV', 'GammonBot_IX', 'bonehead', 'zz_Top', 'Abe',
         'michele_', 'jfk', 'X_x', 'marvin', 'wxpygammon')
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ__<>'
WORDS = ('you', 'your', 'the', 'player', 'user', 'nst', 'xo')


def any_name(rng):
  if rng.random() < 0.7:
    return rng.choice(NAMES)
  while True:
    s = ''.join([rng.choice(LETTERS) for _ in range(rng.choice((1, 2, 3, 5, 8, 12, 20)))])
    if s.lower() not in WORDS:
      return s

CHAT = ('hello', 'nice roll!', 'gg', "doubles. Type 'accept' or 'reject'.", 'waves goodbye.',
        'board:You:someplayer:3:0:0', "someplayer wins the game and gets 2 points. Sorry.",
        '** You terminated the game', 'The game was saved.', "You're not watching anymore.",
        'anyone for a 3 point match?', '   spaced   out   ', '6', '5 monitor - - 0 0',
        'is playing with fire', "I has left the game.", 'wants to resign.', '           Goodbye.',
        'starts watching you.', 'login: ', '3', '4', 'X: wins', '\xe9\xe8 caf\xe9', '%s %d', 'a|b\\c')
UNKNOWN = ('xyzzy', 'hello there, how are you?', '*', '?', '*** note', 'See you', '.', ' ',
           '99', '20 someplayer hi', '0', '4', '3', '1 wxpygammon 1207724539 host',
           '2 wxpygammon 1 1 0 0', '(nothing)', 'You', 'someplayer', 'boards:', 'Board:You:x:1',
           'You rolls', 'someplayer roll 1 and 2', '-', '\xff\xfe', '#', 'Goodbye.', '60', '6x',
           'login', '\t', '      ')


def board_line(rng, good=True):
  f = ['board', rng.random() < 0.2 and 'You' or any_name(rng), any_name(rng)]
  f += [str(rng.randint(-5, 15)) for _ in range(50)]
  s = ':'.join(f)
  if not good:
    s = rng.choice((s + ':x', s + ' ', ':'.join([f[0], 'bad name'] + f[2:]), 'board:', 'board:You:x',
                    ':'.join(f[:2] + [rng.choice(('pl4yer', 'two words', '', 'a-b'))] + f[3:]), ':'.join([f[0], 'pl4yer'] + f[2:])))
  return s


PLAYS = ('24-18 13-8', 'bar-20 6-off', '6-off 5-off', '6-5', '1-off', '8-5 8-5 6-3 6-3', 'bar-25', '13-11 13-11 6-4 6-4')


def fill(rng, text):
  p = q = any_name(rng)
  while q == p:
    q = any_name(rng)
  out = []
  k = 0
  while k < len(text):
    c = text[k]
    if c == '%':
      k += 1
      c = text[k]
      if c == 'P':
        c = p
      elif c == 'Q':
        c = q
      elif c == 'N':
        c = str(rng.choice((1, 2, 3, 5, 7, rng.randint(2, 999))))
      elif c == 'D':
        c = str(rng.randint(1, 6))
      elif c == 'M':
        c = str(rng.randint(2, 4))
      elif c == 'S':
        c = rng.choice(('1 point', '%d points' % rng.choice((2, 3, 4, 6, 12, rng.randint(2, 400)))))
      elif c == 'X':
        c = rng.choice('XO')
      elif c == 'V':
        c = rng.choice(PLAYS)
      elif c == 'R':
        c = '%.2f' % rng.uniform(800, 2100)
      elif c == 'H':
        c = rng.choice(('localhost', 'www.schneiderp.de', '10.0.0.1'))
      elif c == 'T':
        c = rng.choice(CHAT)
    out.append(c)
    k += 1
  return ''.join(out)


def message(rng):
  """(acceptable names, text) of a random line of a running session."""
  r = rng.random()
  if r < 0.06:
    return ('FIBS_Board',), board_line(rng)
  if r < 0.10:
    return ('FIBS_BAD_Board',), board_line(rng, False)
  if r < 0.16:
    return ('FIBS_Unknown',), rng.choice(UNKNOWN)
  names, text = rng.choice(TABLE)
  return names, fill(rng, text)
