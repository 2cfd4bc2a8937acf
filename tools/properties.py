"""What is claimed, in one place; make_manifest.py turns it into the JSON files."""

NOTES = ('No hooks in /repo: every monitor observes the public API from outside. '
         'Checks run the code of /repo under Jython 2.7 (/opt/jy/jy), 8 workers each; '
         'nothing is built.')

TRUST = (' Trusts the reference in /verif/jy/ref and the Jython runtime; covers the '
         'executions generated, not all of them.')

PROPERTIES = [
  dict(
    id='M01', title='Single-step suggestions are exactly the legal steps, largest die first',
    statement=(
      'For every position, player, roll and set of dice still to play, asking for the move of one '
      'chequer from a given point, or onto a given point, offers a step exactly when the rules of '
      'backgammon allow one with a single remaining die, and offers the one that uses the largest '
      'such die. Bar entry comes first, a point held by two or more opposing chequers is closed, '
      'a lone opposing chequer is hit, and bearing off needs all chequers home and either the '
      'exact die or a larger one with nothing behind.'),
    over=['inputs'],
    quantifier='all positions of up to 15 chequers a side, both players, all 21 rolls, all sub-multisets of the dice left, all 26 sources and destinations',
    why='the tests ask some forty hand-made questions, mostly from the initial position; positions times dice times points are astronomically many',
    files=['bglib/model/move.py', 'bglib/model/board.py', 'bglib/model/util.py'],
    mechanism=[('guess_your_single_pm / guess_your_single_pm_from_dest / guess_your_multiple and the Find* helpers', 'bglib/model/move.py'),
               ('AvailableToPlay, the dice left in order', 'bglib/model/move.py'),
               ('is_open_to_land, is_ok_to_bearoff_from', 'bglib/model/board.py')],
    observe=['answers of MoveFactory.guess_your_single_pm and ..._from_dest'],
    technique='answers compared online with an independent rules engine over generated positions',
    note='Every source and destination of each generated (position, player, roll, dice left) is asked and compared with an independent move generator.' + TRUST),
  dict(
    id='M02', title='Multi-step suggestions play out legally and are found when they exist',
    statement=(
      'For every position, roll and set of dice left, a suggested move of one chequer over several '
      'dice from one point to another is a sequence of steps each of which is legal after the ones before it, '
      'uses only dice still left and ends where asked; when some such sequence exists one is offered. '
      'A suggested point-making move is likewise legal step by step and leaves the mover holding that point.'),
    over=['inputs'],
    quantifier='all positions, players, rolls and dice left; every pair of points',
    why='tests hold a dozen examples; blocked intermediate points, hits under way and the order of the dice interact',
    files=['bglib/model/move.py', 'bglib/model/board.py'],
    mechanism=[('guess_your_multiple_pms, guess_your_making_point', 'bglib/model/move.py'),
               ('Find', 'bglib/model/move.py')],
    observe=['Mv objects returned by MoveFactory'],
    technique='suggestions replayed step by step in an independent rules engine, with completeness by search',
    note='Every (source, destination) pair of each generated turn is asked; steps are replayed by the reference and absences compared with an exhaustive search.' + TRUST),
  dict(
    id='M03', title='Asking for advice changes nothing',
    statement=(
      'Every question about a turn (what a chequer may do, which move makes a point, what to undo, whether the dice '
      'may be picked up) leaves the board, the move so far, the dice left and everything the caller passed in as they were, '
      'and gives the same answer when asked again.'),
    over=['inputs', 'histories'],
    quantifier='all turns some legal steps deep, all questions in all orders',
    why='a test asks once and looks at the answer; leftovers of trial moves only show on later questions',
    files=['bglib/model/move.py', 'bglib/model/board.py', 'bglib/model/model.py'],
    mechanism=[('trial moves on copies of the board or rewound afterwards', 'bglib/model/move.py'),
               ('AvailableToPlay copies', 'bglib/model/move.py')],
    observe=['board attributes, Mv list, AvailableToPlay before and after every question'],
    technique='state snapshots before and after every query in random order, asked twice',
    note='All queries of a turn are asked twice in random order with full snapshots in between.' + TRUST),
  dict(
    id='M04', title='Playing and undoing conserve chequers and dice and cancel exactly',
    statement=(
      'However a turn is played, each player always has the chequers the turn began with, the dice spent plus the dice left are the '
      'dice rolled, and a hit chequer is on the bar. Undoing steps in any legal order, as suggested when a chequer is dragged back or in full, '
      'restores exactly the position and the dice from before those steps. '
      'The dice left are a multiset: copies are independent, and a die that is not left can not be spent.'),
    over=['histories', 'inputs'],
    quantifier='all interleavings of legal steps, suggested moves, partial undos and full undos, in single turns and whole games',
    why='tests undo one or two fixed moves; hits, bear offs and partial undos followed by further steps are histories',
    files=['bglib/model/move.py', 'bglib/model/board.py', 'bglib/model/model.py', 'bglib/model/boardeditor.py'],
    mechanism=[('make_partial_move / undo_partial_move', 'bglib/model/board.py'),
               ('MoveFactory.guess_your_partial_undoes and dice bookkeeping', 'bglib/model/move.py')],
    observe=['board after every operation', 'AvailableToPlay after every operation'],
    technique='conservation and inverse oracles checked after every operation of random histories',
    note='Turns and games of random operations are compared after each with the net effect of the steps still standing.' + TRUST),
  dict(
    id='M05', title='Dice may be picked up exactly when the turn is complete',
    statement=(
      'At any moment of a turn the dice may be picked up exactly when no further legal step exists that the rules require: the '
      'chequers moved so far have used as many dice as any legal way of playing the roll from the start of the turn could.'),
    over=['inputs', 'histories'],
    quantifier='all positions, rolls and partial plays of them',
    why='the tests hold a handful of positions; the answer depends on an exhaustive search of every way to play',
    files=['bglib/model/move.py', 'bglib/model/board.py'],
    mechanism=[('is_leagal_to_pickup_dice', 'bglib/model/move.py')],
    observe=['the pick-up answer after every step of a turn'],
    technique='answer after every step compared with exhaustive search in a reference engine',
    note='Compared with a complete search for the most dice playable after every step of random turns.' + TRUST),
  dict(
    id='M06', title='The two players are interchangeable',
    statement=(
      'Swapping the seats of a board twice gives the board back, and once gives the same game seen from the other side. Every question '
      'about one player (who may roll, double, take, resign, move; what a chequer may do) has the same answer as the '
      'mirrored question about the other player on the swapped board.'),
    over=['inputs', 'configurations'],
    quantifier='all boards with any turn, cube, score, Crawford, offer and resignation state',
    why='tests are written from one side; asymmetries sit in the combinations of flags',
    files=['bglib/model/board.py', 'bglib/model/boardeditor.py', 'bglib/model/move.py', 'bglib/model/util.py'],
    mechanism=[('flip of boards and editors', 'bglib/model/board.py'),
               ('player-symmetric predicates', 'bglib/model/board.py')],
    observe=['every predicate, on a board and its mirror image'],
    technique='metamorphic relation (seat swap) over generated boards',
    note='Each generated board is compared with its mirror image, built by the library and by the reference, on all questions.' + TRUST),
  dict(
    id='M07', title='A frozen board is a value that nothing changes',
    statement=(
      'Once a board exists, no later operation on it, on an editor made from it or on boards made from that editor changes any attribute of it; '
      'assigning or deleting its attributes is refused. Copies and editor round trips carry every attribute faithfully, and an editor never sees '
      'another editor\'s later edits.'),
    over=['histories'],
    quantifier='all histories of edits and copies over a pool of boards and editors',
    why='aliasing only shows in histories with several objects alive at once',
    files=['bglib/model/board.py', 'bglib/model/boardeditor.py'],
    mechanism=[('board.__setattr__ / freeze', 'bglib/model/board.py'), ('BoardEditor copying', 'bglib/model/boardeditor.py')],
    observe=['all attributes of all live objects after every edit'],
    technique='shadow state per object compared after every operation of random histories',
    note='A shadow copy of every live object is compared after every edit.' + TRUST),
  dict(
    id='M08', title='Cube and resignation offers follow the protocol',
    statement=(
      'In every game history, a player is allowed to roll, double, take, drop, offer a resignation, accept or reject one, or move exactly when '
      'the turn, cube ownership, score, Crawford and beaver rules and outstanding offers allow it, and at any moment at most one player owes an answer. '
      'An action by a player who is not allowed to take it is refused and leaves no trace; an allowed one leads to the state the protocol says.'),
    over=['histories', 'configurations'],
    quantifier='all sequences of legal and illegal offers and answers, at all scores and match lengths',
    why='the tests check single states; the protocol is about sequences',
    files=['bglib/model/board.py', 'bglib/model/boardeditor.py', 'bglib/model/model.py'],
    mechanism=[('is_leagal_to_* predicates', 'bglib/model/board.py'), ('double, take, drop, resignation actions', 'bglib/model/board.py')],
    observe=['all permission answers and attributes after every event'],
    technique='reference state machine run in lock step over random game histories',
    note='A reference machine of the protocol is compared after every event, illegal ones included. A take leaves cube value and owner to the caller, as the API does.' + TRUST),
  dict(
    id='M09', title='Point, step and move notation reads back what was written',
    statement=(
      'Every point, step and move has one written form for people, and reading that form gives the same point, step or move back; different '
      'ones never share a form. Text that is not a form is refused rather than read as something else.'),
    over=['inputs'],
    quantifier='all points and steps (enumerated), all moves and texts (generated)',
    why='tests list a few examples; unambiguity is about all pairs',
    files=['bglib/model/util.py', 'bglib/model/move.py'],
    mechanism=[('move_pton, move_ntop, position_pton, position_ntop', 'bglib/model/util.py')],
    observe=['return values of the conversions'],
    technique='enumeration of points and steps, round-trip oracles over generated texts',
    note='Points and steps enumerated completely, moves and texts sampled.' + TRUST),
  dict(
    id='E01', title='GNU Backgammon ids are faithful both ways and safe to read',
    statement=(
      'Every board whose values fit the GNU Backgammon position and match ids is written as exactly the ids the format defines, '
      'and reading those ids into any editor gives back every value they carry. Reading arbitrary text ends, promptly, in a board or in one of the documented errors.'),
    over=['inputs'],
    quantifier='all encodable boards; arbitrary texts',
    why='tests hold a handful of known ids; 2^80 positions times match states',
    files=['bglib/encoding/gnubgid.py', 'bglib/encoding/__init__.py'],
    mechanism=[('encode_position, decode_position, encode_match, decode_match', 'bglib/encoding/gnubgid.py')],
    observe=['ids and decoded attributes'],
    technique='independent encoder as oracle, round trips, hostile inputs under a time limit',
    note='Compared with an encoder written from the format description. Values the format cannot carry are out of scope; tonic.bitsarray is absent from the sandbox and replaced by a stand-in.' + TRUST),
  dict(
    id='E02', title='XGID texts decode to the situation they describe',
    statement=(
      'Every well-formed XGID text decodes to the position, cube, turn, dice, score, match length and Crawford or beaver state it spells, '
      'agreeing with the same situation read from GNU Backgammon ids, whatever the editor held before. A malformed text ends in the documented decoding error.'),
    over=['inputs'],
    quantifier='all situations; arbitrary texts',
    why='tests decode a few saved ids',
    files=['bglib/encoding/xgid.py'],
    mechanism=[('decode and field readers', 'bglib/encoding/xgid.py')],
    observe=['editor attributes after decoding'],
    technique='independent writer as oracle, differential against the other decoder, hostile inputs',
    note='Texts are written by an independent encoder and compared field by field.' + TRUST),
  dict(
    id='E03', title='Database byte strings are lossless and their distance is a metric',
    statement=(
      'The byte string of a board carries its position as seen by the player on action and gives exactly that position back. The distance '
      'between two byte strings is the sum of the squares of the differences of their chequer counts: zero only for equal ones, symmetric, and its root obeys the triangle inequality.'),
    over=['inputs'],
    quantifier='all legal positions, pairs and triples of them',
    why='tests hold a few positions',
    files=['bglib/encoding/dbbyte.py'],
    mechanism=[('encode, decode, urlsafe forms, hamming-like distance', 'bglib/encoding/dbbyte.py')],
    observe=['bytes, decoded boards and distances'],
    technique='independent encoder and metric axioms over generated boards',
    note='Bytes compared with independently computed ones, distances with a sum over decoded counts (squared, as the tests say).' + TRUST),
  dict(
    id='E04', title='FIBS board lines decode to the situation they describe',
    statement=(
      'Every board line a FIBS server sends, for either colour, either direction and either player on turn, decodes to the position, cube, dice, '
      'score, match length and permissions it spells, from the point of view of the user, whatever the editor held before.'),
    over=['inputs', 'configurations'],
    quantifier='all situations times colour times direction times turn',
    why='tests decode a few recorded lines; colours, directions and turn interact',
    files=['bglib/encoding/FIBS.py'],
    mechanism=[('FIBSBoardState / decode', 'bglib/encoding/FIBS.py')],
    observe=['editor attributes after decoding'],
    technique='independent writer of board lines as oracle',
    note='Lines are written by an independent encoder for random colour and direction and compared attribute by attribute.' + TRUST),
  dict(
    id='E05', title='Bearoff numbering is one to one and databases are read whole',
    statement=(
      'The numbering of one-sided bearoff positions assigns every position of up to fifteen chequers on six points a different number in an unbroken range and '
      'converts both ways without loss. A bearoff database returns, for every number in its range, exactly the record stored there, in any order of asking, and refuses numbers outside. '
      'The points and chequers a position asks of a database are the rearmost point either side holds (none if all is borne off) and the greater number of chequers; the number of positions agrees by both formulas.'),
    over=['inputs', 'histories'],
    quantifier='all 54264 positions (enumerated); all database contents and access orders',
    why='tests hold a dozen positions; one-to-one is about all pairs',
    files=['bglib/encoding/bearoff/__init__.py', 'bglib/encoding/bearoff/nori.py', 'bglib/encoding/bearoff/gnubgdb.py', 'bglib/encoding/bearoff/trice.py'],
    mechanism=[('oneside_index / position conversions', 'bglib/encoding/bearoff/')
               , ('DBReader record access', 'bglib/encoding/bearoff/')],
    observe=['numbers, positions and records returned'],
    technique='complete enumeration against an independent ranking; database files of random records',
    note='The numbering is enumerated completely; database contents are sampled. The combinatorial helpers of the absent tonic package are stand-ins.' + TRUST),
  dict(
    id='E06', title='Names, dice and numbers are read out of FIBS messages as they were sent',
    statement=(
      'From every message FIBS sends about a roll, a double, a score or a resignation, whoever it is about, the helpers read exactly the dice, the name of the player who acted, '
      'the name of who takes a double, the points and the scores that are written in it; asked for a name in a line that starts with none, or for who takes in a message that is not about taking, they answer that there is none.'),
    over=['inputs'],
    quantifier='all 36 rolls (enumerated), all names FIBS allows, all points, scores and match lengths',
    why='the tests ask none of it',
    files=['bglib/encoding/FIBS.py'],
    mechanism=[('get_dice, get_name, get_taker_name, get_score, get_match_scores, get_resign_score', 'bglib/encoding/FIBS.py')],
    observe=['values returned'],
    technique='values read compared online with those written into generated messages',
    note='Messages are written with known values and read back. get_move is left out: it refers to names which do not exist, and what it should give for the opponent is nowhere said.' + TRUST),
  dict(
    id='N01', title='Every FIBS line gets the name of its kind, whatever came before',
    statement=(
      'In a running session every line the server sends is named by the kind of message it is, for any player name, number or text inside it, '
      'and the name does not depend on the lines that came before. Board lines are recognised exactly when they are complete, and a line of no known kind is given the name for unknown lines.'),
    over=['inputs', 'histories'],
    quantifier='all kinds of message, all contents, all histories of lines before',
    why='the test feeds one transcript once; ambiguity and history dependence need pairs and permutations of lines',
    files=['bglib/protocol/fibs.py'],
    mechanism=[('CookieMonster and its message tables', 'bglib/protocol/fibs.py')],
    observe=['name given to every line'],
    technique='table of message kinds as oracle over random histories and all ordered pairs of kinds',
    note='A table written from the protocol description says which names are right; kinds that the description leaves ambiguous accept either.' + TRUST),
  dict(
    id='N02', title='A session moves through login, message of the day and running as told',
    statement=(
      'Lines are named as belonging to the login, the message of the day or the running session exactly as the server\'s markers say, in every '
      'conversation: through failed logins, several logins and log outs, with look-alikes of the markers elsewhere changing nothing. Sessions do not influence one another.'),
    over=['histories'],
    quantifier='all server conversations over several logins; several recognisers at once',
    why='the test follows one conversation',
    files=['bglib/protocol/fibs.py'],
    mechanism=[('message_state of CookieMonster', 'bglib/protocol/fibs.py')],
    observe=['name given to every line'],
    technique='reference phase machine in lock step over random conversations',
    note='Every name is compared with a hand-coded machine of the phases.' + TRUST),
  dict(
    id='N03', title='Subscribers hear every line once, in order and whole',
    statement=(
      'However the network cuts the server\'s stream into pieces, every subscriber hears each line exactly once, in the order sent, with its full text and under the same name as '
      'if it had arrived alone; the login prompt, which has no line end, is heard as soon as it is there. Messages are handed out one at a time.'),
    over=['schedules', 'inputs'],
    quantifier='all ways to cut a stream into packets, all delays, all conversations',
    why='the tests use no network at all; packet boundaries are schedules',
    files=['bglib/protocol/session.py', 'bglib/protocol/fibs.py'],
    mechanism=[('Session._listener and _dispatch', 'bglib/protocol/session.py')],
    observe=['per-subscriber logs on real loopback connections'],
    technique='offline ordering and exactly-once checker over logs of real connections with fragmented streams',
    note='Real sockets on the loopback, streams cut at random and hostile places.' + TRUST),
  dict(
    id='N04', title='Subscriptions, sending and closing of live sessions behave at any moment',
    statement=(
      'A subscriber hears exactly the messages handed out while it is registered, and one that joins or leaves, even while a message is handed out, never hides messages from the others. '
      'Lines sent from several threads reach the server whole and in each sender\'s order. After a session is closed, at any moment and from any thread, or its connection ends, '
      'its end is announced, it is inactive and nothing more is heard from it, while other sessions go on.'),
    over=['schedules', 'histories'],
    quantifier='all interleavings of messages, registration, sending and closing from several threads',
    why='the tests are single-threaded with a mock socket; these are races',
    files=['bglib/protocol/session.py'],
    mechanism=[('lock around dispatch, register, send, close', 'bglib/protocol/session.py'), ('terminated event', 'bglib/protocol/session.py')],
    observe=['subscriber logs, server side byte log, is_active, terminated'],
    technique='stress with injected delays over real sockets; offline log checkers (exactly-once, per-sender order, termination)',
    note='Real threads and sockets, closing injected in seven kinds of moments. A race inside Jython\'s own socket.close is neutralised by the harness (DESIGN.md).' + TRUST),
  dict(
    id='D01', title='Any wiki text renders to well-formed, harmless markup with every word kept',
    statement=(
      'Any text at all, however markup in it is nested, unbalanced or hostile, renders without failing to well-formed markup of the known elements, attributes and kinds of links only '
      '(no scripts, no foreign tags or attributes). Every word of the text is in the rendering exactly once and in order; plain text is shown letter for letter. '
      'A table of contents lists every heading in order, as deep as its level, with links that lead to it.'),
    over=['inputs'],
    quantifier='all texts, all combinations of markup',
    why='the tests render some fifty fixed snippets; faults come from combinations of markup',
    files=['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py', 'bglib/doc/html.py', 'bglib/doc/macro.py'],
    mechanism=[('line patterns and handlers', 'bglib/doc/bgwiki.py'), ('escape', 'bglib/doc/html.py'), ('TocVisitor', 'bglib/doc/macro.py')],
    observe=['rendering, as an XML parser reads it'],
    technique='hostile random texts, renderings monitored with an XML parser and a word ledger',
    note='Markup tokens, tags, quotes, macros and links are mixed at random; words are unique, so that loss, doubling and reordering show.' + TRUST),
  dict(
    id='D02', title='Well-nested wiki text renders to the structure it describes',
    statement=(
      'Wiki text whose markup is well nested renders to the structure it describes: paragraphs, headings, nested lists of each kind, tables, quotes, definitions, citations and '
      'preformatted text, with emphasis, links to entries, queries, matches, wiki pages and addresses at the right places, escaped markup shown as text, and every text in its element.'),
    over=['inputs'],
    quantifier='all documents of the wiki grammar, of any size and nesting',
    why='the tests have one small example per kind of markup; nesting and sequences of blocks are unbounded',
    files=['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py'],
    mechanism=[('LineFormatter handlers', 'bglib/doc/bgwiki.py'), ('Editor, acceptables', 'bglib/doc/doctree.py')],
    observe=['tree of the rendering'],
    technique='grammar-generated documents with their trees as oracle; rendering read by an XML parser',
    note='The generator makes the text and the tree it means side by side and knows nothing of bglib.' + TRUST),
  dict(
    id='D03', title='A rendering depends on the text alone, not on how or when it is made',
    statement=(
      'Rendering a document again, asking for its references, feeding it in lines or in blocks, with other line ends, or while other documents are read and rendered in turns, changes '
      'nothing of its rendering; documents divided by an empty line render as they do alone. This holds for the wiki, markdown and reStructuredText formatters alike.'),
    over=['histories', 'inputs'],
    quantifier='all texts, all ways to feed and render them, several formatters at once',
    why='every test renders one text once with a new formatter',
    files=['bglib/doc/bgwiki.py', 'bglib/doc/doctree.py', 'bglib/doc/macro.py', 'bglib/doc/mkdn.py', 'bglib/doc/rst.py'],
    mechanism=[('Formatter.parse / make_html / extract_references', 'bglib/doc/bgwiki.py'), ('accumulation of text', 'bglib/doc/mkdn.py')],
    observe=['renderings of the same text along different histories'],
    technique='differential monitoring of histories (again, in pieces, in turns, joined)',
    note='One rendering is the oracle of the other; what the rendering has to be is judged by D01 and D02. Timestamps are left out.' + TRUST),
  dict(
    id='D04', title='Text survives escaping, and the document tree stays sound under any editing',
    statement=(
      'Any text, escaped or given as an attribute, reads back unchanged and makes no markup, and escaping texts joined is joining texts escaped. '
      'Under any sequence of entering, leaving, removing and adding text, an element goes to the nearest open element that can hold it, leaving goes back to what holds the element left, parents and children agree, '
      'blocks are never inside of inline elements, and the tree is written as well-formed markup with all texts in order.'),
    over=['inputs', 'histories'],
    quantifier='all texts; all sequences of editor operations with all elements',
    why='the tests try a few sequences of two or three elements',
    files=['bglib/doc/html.py', 'bglib/doc/doctree.py'],
    mechanism=[('escape', 'bglib/doc/html.py'), ('Editor.enter, leave, append_text', 'bglib/doc/doctree.py'), ('acceptables', 'bglib/doc/doctree.py')],
    observe=['editor position after every step, tree, markup'],
    technique='lock-step monitor with a plain model of open elements; XML parser as reader',
    note='The model checks the whole tree at the end of each sequence and the place of the editor after each step.' + TRUST),
  dict(
    id='D05', title='Macros show the position and analysis asked for, and never damage the page',
    statement=(
      'The Position macro makes one picture whose query is exactly the position and options given, with defaults for the others; the Analysis macro asks the data base for exactly that position and match and shows every row '
      'of the answer, numbered, shaded and with each number in its cell. Bad arguments and unknown macros give an error that shows them as text. Macros of the application get their arguments as written until they are unregistered. '
      'Text around a macro stays outside of it.'),
    over=['inputs', 'histories'],
    quantifier='all positions, options, analyses, arguments and sets of registered macros',
    why='the tests use the six answers of one mock data base',
    files=['bglib/doc/macro.py', 'bglib/doc/bgwiki.py'],
    mechanism=[('dispatch, register', 'bglib/doc/macro.py'), ('Position, Analysis and table rows', 'bglib/doc/macro.py')],
    observe=['elements of the page, queries put to the data base, calls of macros'],
    technique='random analyses and arguments; page read by an XML parser and compared cell by cell',
    note='Numbers are expected in the formats the tests show.' + TRUST),
  dict(
    id='I01', title='Style sheets give every element exactly what the rules that match it say',
    statement=(
      'A rule of a style sheet applies to an element exactly if its last selector fits it and the selectors before fit some of its ancestors in order, where a selector is the name of an element, perhaps with the value of one attribute and its text, quoted or not. '
      'The later rule wins; what no rule gives comes from the element itself, then from its ancestors where the attribute is inherited, then from the default. Values have the types of their attributes, and files are found beside the style sheet. '
      'Comments and blank lines are no rules. Sheets can be applied one after another and to many trees.'),
    over=['inputs', 'histories'],
    quantifier='all style sheets of the documented syntax, all boards',
    why='the tests parse a few rules and look at two or three attributes',
    files=['bglib/image/css.py', 'bglib/image/base.py'],
    mechanism=[('CSSParser, Rule.is_match, RuleBinder', 'bglib/image/css.py'), ('attributes and inheritance', 'bglib/image/base.py')],
    observe=['every attribute of every element after applying the style sheet', 'lines of the rules applied'],
    technique='differential monitor: independent cascade on random style sheets and boards',
    note='One rule a line; values without spaces.' + TRUST),
  dict(
    id='I02', title='The tree of a picture shows the board, all of it and nothing else',
    statement=(
      'The element tree made for a going-on position holds each chequer on its point, on the bar or borne off with its owner, the cube with its value on the side of its owner, both scores, the length and crawford, '
      'and the action (dice, double or resignation) of the board. The same board gives the same tree, swapped boards give swapped trees, and the tree written as XML reads back with the same elements and is valid by the document type bglib gives for it.'),
    over=['inputs', 'histories'],
    quantifier='all boards a game can reach',
    why='the tests look at the opening position',
    files=['bglib/image/base.py'],
    mechanism=[('ElementTree.create_tree', 'bglib/image/base.py'), ('XML of elements', 'bglib/image/base.py')],
    observe=['elements, attributes and texts of the tree', 'XML'],
    technique='differential monitor: independent tree on boards of random games; swapped sides; trees kept in the repository',
    note='The player of the action of an offered double is not judged (the kept trees and the code agree on one, the rules say the other).' + TRUST),
  dict(
    id='I03', title='A picture shows what the styled elements say, scaled to the size asked for',
    statement=(
      'For every board, style sheet and size, the picture asked of the drawing backend is the styled tree and nothing else: for each element its background, then its image or coloured shape, at its own place, '
      'scaled by the one factor that fits the whole board into the size; points are triangles of their parity and direction, chequers are stacked up to the greatest number the style shows, with the count '
      'as text where there are more, dice have the right eyes, cube, scores and fields their texts. Whatever lies in an element is drawn after it. The same board, style and size give the same picture, '
      'whatever the drawer has drawn before, and any size asked for can be drawn.'),
    over=['inputs', 'histories'],
    quantifier='all boards, style sheets of the documented syntax, sizes, and sequences of drawings by one drawer',
    why='the tests draw the opening position in one size and look at a few calls',
    files=['bglib/image/base.py', 'bglib/image/draw.py', 'bglib/image/css.py'],
    mechanism=[('draw and bg_draw of each element, set_mag, apply_mag', 'bglib/image/base.py'), ('Draw.draw and the order of elements', 'bglib/image/draw.py')],
    observe=['calls of draw_rect, draw_ellipse, draw_polygon, draw_text, load_image and paste_image'],
    technique='recorded drawing operations compared with an independent tree, cascade and geometry',
    note='Texts, colours and places are compared exactly; order only where one thing lies upon another.' + TRUST),
  dict(
    id='I04', title='Bundled themes draw every board with PIL as their styles say',
    statement=(
      'With the drawer of any bundled theme and any size, each operation of a picture is done on a new PIL image of that size: files are opened where the theme has them, flipped where the style says so, resized to the size asked for and pasted '
      'at their place, through themselves as mask where they are transparent; rectangles, ellipses and polygons cover their place; a text is written in the middle of its box in the largest font size, from the height of the box down to 8, that '
      'fits inside, or not at all. What was drawn before has no influence, and pictures given before are not drawn upon. Every file a theme names is there.'),
    over=['inputs', 'histories'],
    quantifier='all boards and sizes, the eight bundled themes, sequences of drawings by one drawer',
    why='the tests have no PIL; no test loads the themes with their drawers',
    files=['bglib/image/PIL.py', 'bglib/image/draw.py', 'bglib/image/theme.py', 'bglib/image/resource/'],
    mechanism=[('Draw: load_image and load_font with their cache, calc_font_size, draw_text', 'bglib/image/PIL.py'), ('draw of each theme', 'bglib/image/resource/*.py')],
    observe=['operations on stand-ins for PIL images, fonts and drawing contexts', 'files named by the styles'],
    technique='recorded PIL operations compared with an independent account of board, style and geometry',
    note='PIL is not installed: stand-ins keep the operations, and letters have a made-up size that grows with the font. Missing files of two themes are known findings.' + TRUST),
  dict(
    id='I05', title='Elements hold what their type lists, and refuse the rest without a trace',
    statement=(
      'An element takes as children exactly the elements and texts its type lists, which is also what the document type that bglib gives says, as it is for attributes; a child appended comes last and has the element as its parent. '
      'Setting an attribute, or applying it as style sheets do, makes it read back as that value of its type, there and in all elements below that inherit it and have none of their own. '
      'A child, a value of another type (or one not among those listed), a text that is no number, or the name of no attribute is refused with TypeError, ValueError or KeyError, and everything is as before. '
      'A visit comes to each element once, parents before children, in order; and what is written as XML reads back as the same elements, attributes and texts.'),
    over=['histories', 'inputs'],
    quantifier='all elements, series of appending, setting and applying, and values of any type',
    why='the tests append and set a handful of values, one at a time, on single elements',
    files=['bglib/image/base.py'],
    mechanism=[('BaseElement.append, apply, __setattr__, __getattr__', 'bglib/image/base.py'), ('attribute classes', 'bglib/image/base.py'), ('make_dtd, ElementTree.visit, BaseElement.format', 'bglib/image/base.py')],
    observe=['children, parents and attributes of elements', 'XML and its validity', 'order of visits'],
    technique='random histories monitored in lock step with a shadow tree; all pairs of elements, against a validating parser, too',
    note='Values given to a constructor are not judged, neither what an application of several attributes leaves when one of them is refused, nor bool for int.' + TRUST),
  dict(
    id='R01', title='Match records are accepted exactly when in order, and cut without loss',
    statement=(
      'The validator accepts a text record of a match exactly if its lines come in order: the length of the match, then games, each with its header, its players and its moves numbered from 1 without gaps, '
      'perhaps a result, and blank lines only between these parts; any other line is refused with ValueError. The digest is the SHA-1 of all of its bytes, however it was fed; a record longer than the limit is refused, a shorter one is not. '
      'Cutting a record into games gives one piece a game, in order, each starting with the length of the match, holding all lines of its game except for blank ones, and being a record the validator accepts.'),
    over=['inputs'],
    quantifier='all records laid out as Snowie text files are, and any dropping, doubling, moving or spoiling of their lines',
    why='the tests read one file, and files with all lines shuffled',
    files=['bglib/record/snowietxt.py'],
    mechanism=[('LineValidator, ACCEPTABLES, statevalidate', 'bglib/record/snowietxt.py'), ('Validator, chop', 'bglib/record/snowietxt.py')],
    observe=['digest or ValueError of Validator', 'pieces of chop'],
    technique='verdict, digest and pieces compared with an independent line automaton, on real and generated records and mutations',
    note='Whether a play is legal is not judged, neither are blank lines before the first line and results elsewhere. tonic.lineparser and decorator are stand-ins.' + TRUST),
  dict(
    id='S01', title='Chances, rating gains and handicaps agree with the rating formula and each other',
    statement=(
      'For any two ratings and match length the chance of the lower rated player is 1 / (10^(D sqrt(N) / 2000) + 1) of the gap D and the length N, that of the other is the rest to one; it is never more than a half and falls with gap and length. '
      'The gains of the two players of a match add up to its length, and nobody gains or loses by expectation. The chances of winning, and of losing the last, of some rounds are those of that many matches against the average; '
      'a prize with its handicap is worth to any player what the prize is to the average player, and an entry fee with its handicap is in proportion to the chance to win.'),
    over=['inputs'],
    quantifier='all ratings from 0 to 3000, matches of 1 to 64 points, up to 12 rounds, any prizes and fees',
    why='the tests have four points of the rating formula, and handicaps of the average player only',
    files=['bglib/stat/rating.py', 'bglib/stat/tourney.py'],
    mechanism=[('upset_chance, winning_chance, gain_on_win', 'bglib/stat/rating.py'), ('tourney_chance, prize_handicap, entryfee_handicap', 'bglib/stat/tourney.py')],
    observe=['results of the functions'],
    technique='results compared with the formula and by metamorphic relations between them',
    note='Compared up to 1e-9.' + TRUST),
  dict(
    id='S02', title='Tournaments pair everybody fairly, and nobody gains or disappears',
    statement=(
      'In every round of a tournament as many matches are played as there are pairs of living players, each living player plays once at most, and each match takes one life from its loser and nothing from anybody else. '
      'A player is out from the moment the last life is lost, never plays again, and every player is either alive or out; ratings and the entries given stay as they are. Rounds repeated end with one player alive, who then plays no more. '
      'The players of a match win as often as their ratings and the length of the match say, in whatever order they are, and no pairing is preferred.'),
    over=['histories', 'inputs'],
    quantifier='all numbers of players, lives and ratings, all rounds to the end',
    why='the tests play two tournaments and look at the number of survivors',
    files=['bglib/stat/tourney.py', 'bglib/stat/rating.py'],
    mechanism=[('Tourney.round, Player', 'bglib/stat/tourney.py')],
    observe=['lives, alive and dead after every round', 'counts of winners and losers over thousands of rounds'],
    technique='conservation of lives and players monitored after every round; counts of outcomes against their expectation',
    note='Counts are accepted within six standard deviations.' + TRUST),
]
