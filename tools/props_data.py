NB = "check not built yet"
HIST = "all operation and timer histories up to the stated depth, in each game mode"
WHY = "The unit tests play a few scripted games with random bots; they never look at "
SEQ = "Exhaustive within the depth and operation alphabet of the scenario families."

prop("C01", "Blind levels follow the clock",
 "Once the blinds run, the level in force at any instant is exactly the one given by the start second, the initial level and the level durations: the clock starts at the initial level, level k ends when its duration has passed after level k-1's end, the announced end times equal these instants, and the level after a level of unlimited duration is never reached. Every level that is reached is announced once, in order, and none is announced after the clock was ended. The initial level can be changed only before the start, and a second start is refused.",
 ["histories", "configurations", "inputs"], "every level structure of up to four levels with durations 1, 2, 3 s, unlimited, breaks included, every initial level, every end instant and sub-second start phase in the bound; and all competition histories of the families",
 "The blind tests run six fixed structures on the wall clock and cannot vary the phase, the end instant or the interplay with the competition.",
 ["blind/blind.go", "competition_engine_internal.go"], [("level timers and end times", "blind/blind.go Start, updateLevel"), ("mapping to the competition's level index", "competition_engine_internal.go initBlind")],
 "The stand-alone clock is enumerated over all small structures; the engine's level is checked after every step of every history.")
prop("C02", "A competition is created exactly when its settings are valid",
 "Creating a competition is refused exactly when its start is scheduled and lies in the past (the start of the current second included), its disable time does, or a table is to be created with more preset players than seats. A competition that is created is registering, has no blind level in force, lists no players yet, has created exactly the requested tables with the preset players seated, and reports its start and end times as not set. A refused creation leaves no table, player or timer behind.",
 ["inputs", "configurations"], "all combinations of mode, number of tables, preset players, start and disable times in the bound",
 "No test creates an invalid competition or one with preset players.",
 ["competition_engine.go"], [("validation", "competition_engine.go CreateCompetition")], "Complete enumeration of a grid of settings.")
prop("C03", "The competition only moves forward and stays frozen once ended",
 "The status of a competition only moves forward: registering, buying in while playing, buying in stopped, ended. Once ended, nothing changes the end status, the end time, the final rankings, the blind level, or anything that is known of any player, and nobody is sent away (the refund of a competition that never began and a seat given up by its player aside): buy-ins, add-ons and starts are refused, and hands that settle or timers that fire late have no such effect.",
 ["histories"], HIST, WHY + "a competition after it ended, nor at operations in unusual phases.",
 ["competition_engine.go", "competition_engine_internal.go"], [("status guards in operations", "competition_engine.go"), ("close and settlement", "competition_engine.go CloseCompetition; competition_engine_internal.go settleCompetition")], SEQ)
prop("C04", "A competition ends exactly once",
 "However a competition comes to its end - closed by hand, by its timers, by the table emptying or by the last knockout, several of these at once included - the end is announced exactly once, with an end status in force. Every table that is still open is released exactly once and no table of a running competition is released. Every player appears at most once in the final rankings.",
 ["histories", "schedules"], "all histories up to the depth, plus all interleavings (up to the preemption bound) of two closing causes",
 WHY + "two closing causes at once.",
 ["competition_engine.go", "competition_engine_internal.go"], [("closing", "competition_engine.go CloseCompetition; competition_engine_internal.go closeCompetitionTable, settleCompetition")], SEQ)
prop("C05", "A single-table competition starts by itself exactly once",
 "A single-table tournament or cash game starts by itself as soon as enough players have taken their seats and its scheduled start, if a tournament has one, has been reached, and not before. The start happens exactly once: the blinds begin once, the table is given the blinds of the initial level before its first hand, and its game is started once. A tournament that was started by hand, or whose start time came before enough players were seated, still begins to play when they are.",
 ["histories", "schedules", "configurations"], "all orders of seating, buying in and time in the bound, with and without a scheduled start", WHY + "a scheduled start or the seats filling around it.",
 ["competition_engine_internal.go", "competition_engine.go"], [("auto start on table updates", "competition_engine_internal.go handleCompetitionTableCreated"), ("start", "competition_engine.go StartCompetition")], SEQ)
prop("C06", "A buy-in is accepted exactly when it may be, and is booked exactly",
 "A buy-in of a positive amount is accepted exactly while the competition is registering or buying in is open, in tournaments for a known player only inside the re-buy rules (knocked out with no chips, waiting to re-buy, re-buys left), and for a player who has no seat at a single table, tournament or cash, only while one is free. An accepted one adds exactly the paid chips and units to this player and to the competition's totals, counts a re-buy for a returning player, marks the player as playing, asks the table for one seat (or stack) with these chips, and changes nobody else. A refused one changes nothing and announces nothing.",
 ["histories", "inputs"], HIST, WHY + "re-buys, full tables or late buy-ins, nor check what a refused one leaves behind.",
 ["competition_engine.go"], [("buy-in and re-buy", "competition_engine.go PlayerBuyIn")], SEQ)
prop("C07", "An add-on is accepted exactly when it may be, and is booked exactly",
 "An add-on of a positive amount for a seated player is accepted exactly while the competition has not ended, the blind level in force allows it (and is a break where add-ons are for breaks only) and the player has add-ons left. An accepted one adds exactly the paid chips, one add-on and the paid units to this player and the totals, hands the same chips to the player's table once, and changes nobody else. A refused one changes nothing and announces nothing.",
 ["histories", "inputs", "configurations"], HIST + ", with levels that do and do not allow add-ons and with breaks", WHY + "add-ons at all.",
 ["competition_engine.go"], [("add-on", "competition_engine.go PlayerAddon")], SEQ)
prop("C08", "A refund undoes a buy-in before play begins",
 "A refund is accepted exactly for a player of the competition while the blinds have not begun, also when the competition was closed before that. It takes the player, the player's seat and the player's units out of the competition and its totals and changes nobody else. A refunded player is never seated, dealt in or listed again unless buying in anew; a refused refund changes nothing and announces nothing.",
 ["histories"], HIST, WHY + "refunds.", ["competition_engine.go"], [("refund", "competition_engine.go PlayerRefund")], SEQ)
prop("C09", "A cash-out pays the player's chips exactly once",
 "A cash-out is accepted exactly for a player of a cash game: at once while the game has not begun or its table is paused, otherwise when the hand in progress settles, until when the player is marked as leaving and keeps everything else. The player is paid out once, with exactly the chips held at that moment, and is then gone from the competition and from the table; a leaving player who loses everything in the hand gets the usual re-buy window and is paid out nothing when it closes unused. Nobody is paid out without having asked (or the window having closed) and nobody leaves a cash game without being paid out or refunded.",
 ["histories"], HIST + " of a cash game", WHY + "cash-outs.", ["competition_engine.go", "competition_engine_internal.go"], [("cash-out", "competition_engine.go PlayerCashOut"), ("leaving at settlement", "competition_engine_internal.go handleCashOut and settlement handling")], SEQ)
prop("C10", "Re-buy windows open, hold and close on time; quitting frees the seat",
 "A single-table player who loses all chips with buying in open and re-buys left keeps the seat for exactly the re-buy waiting time and loses it (in a cash game also leaves the game) within three seconds after that if no re-buy came; a player who may not re-buy is knocked out. No player is sent away from the table or has the window closed before that, and players of a multi-table tournament get an unlimited window. A tournament player may quit a single table exactly while buying in is open: the seat is freed, the player may still re-buy within the rules, and nobody else changes.",
 ["histories"], HIST, WHY + "what happens to a busted player.", ["competition_engine.go", "competition_engine_internal.go"], [("re-buy waiting and timer", "competition_engine_internal.go handleReBuy"), ("quit", "competition_engine.go PlayerQuit")], SEQ)
prop("C11", "Every settled hand is booked exactly once, and none gets lost",
 "However often and however concurrently the update of a settled hand is delivered, and whatever player operations run while it is being settled, the hand is booked exactly once: the chips and statistics of its players, knockouts, rankings, re-buy windows and cash-outs are those of one booking, and it is announced as settled once. Every settled hand of a running competition is booked within a second, and player operations that arrive meanwhile return.",
 ["schedules", "histories"], "all interleavings up to the preemption bound of duplicate deliveries and player operations with a settlement", WHY + "a duplicated or concurrent delivery.",
 ["competition_engine_internal.go"], [("deduplication by game count", "competition_engine.go UpdateTable; competition_engine_internal.go settleCompetitionTable")], "Interleavings are exhaustive up to the stated number of deviations from the default schedule.")
prop("C12", "A settled hand is booked faithfully",
 "After a hand settles, every player at that table has exactly the chips the table reports, and the counters of played hands, folds by street, actions, and each statistic's chances and times of every participant move by exactly what the hand reported for that player. Winners alone gain a profit count, and their best pot and best hand are the maximum over the hands won; the ranks at the table order the participants by chips. Players of other tables are unchanged, and no statistic moves outside a settlement.",
 ["histories", "inputs"], HIST + ", with outcomes that vary every reported statistic", WHY + "statistics; the bots' random play cannot predict them.",
 ["competition_engine_internal.go"], [("record update", "competition_engine_internal.go updatePlayerCompetitionTableRecords"), ("chips", "competition_engine.go UpdateTable; competition_engine_internal.go settleCompetitionTable")], SEQ)
prop("C13", "Buying in closes with the last buy-in level, and waiting players go out",
 "Once the blinds run, buying in is open exactly while the level in force is not past the last buy-in level (always, or never, if so configured). At the moment it closes exactly the players without chips who were waiting to re-buy are knocked out, get their final rank once and, in a tournament, lose their seats, the earlier joiner ahead of the later one and all behind the players with chips; nobody else is changed. A single-table tournament left with no two players with chips ends at that moment, one that can go on and a cash game do not.",
 ["histories", "configurations"], HIST + " around the end of the last buy-in level", WHY + "the moment buying in closes with players waiting.", ["competition_engine_internal.go"], [("stop of buying in", "competition_engine_internal.go initBlind (blind update callback)")], SEQ)
prop("C14", "The final rankings are a complete and correct order",
 "When a competition that was played ends, its final rankings list every player with chips and every knocked-out player exactly once: players with chips first, by chips and then by earlier joining; then knocked-out players, the later knockout first and, within one hand at one table, the earlier joiner first. Each entry carries the chips the player ended with and agrees with the player's own rank. From the closing of buying in on, each player's final rank is announced exactly once and is the position finally listed; a competition that never began ends with no rankings.",
 ["histories"], HIST, "The tests only print the final rankings.", ["competition_engine_internal.go", "rank.go"], [("final rankings", "competition_engine_internal.go settleCompetition"), ("rank computation", "rank.go")], SEQ)
prop("C15", "Live ranks are a consistent order at all times",
 "While a competition runs, its players with chips, players waiting to re-buy and knocked-out players carry distinct ranks from one on. Players with chips come first, by chips and then by earlier joining; players waiting to re-buy follow, the later busted first; then the knocked-out players, the later knocked out first. This holds after every operation, settlement and timer.",
 ["histories"], HIST, WHY + "live ranks.", ["competition_engine_internal.go", "rank.go"], [("rank refresh", "competition_engine_internal.go refreshPlayerCompetitionRanks")], SEQ)
prop("C16", "The reported player counts are the players' statuses counted",
 "After every operation, settlement and timer the reported numbers of playing, waiting, knocked-out and re-buy-waiting players equal the numbers of players with these statuses. This includes players who were refunded, cashed out, removed after their re-buy window, or moved between tables.",
 ["histories"], HIST, WHY + "the counts after a player left.", ["competition_engine_internal.go", "competition_engine.go"], [("statistics refresh", "competition_engine_internal.go refreshPlayerStatusStatistics")], SEQ)
prop("C17", "Every table plays the blinds in force",
 "Once the blinds run, every open table has the level, blinds, ante and dealer amount of the level in force after every level change, creation of a table, and restart. Every hand is opened with exactly the blinds in force, never before they are set. The dealer amount is the ante times one less than the configured dealer multiplier, or nothing without one.",
 ["histories", "configurations"], HIST, WHY + "the blinds the tables receive.", ["competition_engine_internal.go", "regulator.go"], [("blind propagation", "competition_engine_internal.go initBlind, updateTableBlind, addCompetitionTable")], SEQ)
prop("C18", "Play resumes exactly once after a break",
 "A table that pauses for a break resumes by itself once the break is over: a next hand is set up for the players with chips who are in their seats exactly once per table and break, about a second after the break ends, if enough players remain. No hand is opened during a break, however the pause is reported. A table that opens during a break, or is due its first hand when one begins, begins to play after it. A table that is in the middle of a hand when the break ends is left alone. Breaks that follow each other directly count as one. A break that outlasts the competition resumes nothing.",
 ["histories", "schedules"], "all histories around one or two breaks, repeated and concurrent pause notifications included", "One test plays through one break; it never looks at duplicates or several tables.", ["competition_engine_internal.go"], [("break handling", "competition_engine_internal.go handleBreaking")], SEQ)
prop("C19", "A paused table deals again as soon as it can",
 "Outside breaks, whenever a table reports a pause with enough players with chips in their seats, the next hand is set up at once, numbered one after the last, for exactly these players. With fewer ready players, during a break, at a table that has played its closing hand before an advancement, or after the end, the pause sets up nothing.",
 ["histories"], HIST, WHY + "a table pausing for lack of players.", ["competition_engine_internal.go"], [("pause handling", "competition_engine_internal.go updatePauseCompetition")], SEQ)
prop("C20", "Chips are conserved and every tournament player is seated once",
 "While no hand is being played, the chips of all players add up to exactly what was bought in and added on less what was refunded and cashed out, and each player's chips equal the stack at the player's table. In a multi-table tournament every player with chips is at exactly one open table, the one the competition names, or waiting for one, and nobody appears at two tables. No waiting player is left unseated for longer than two settled hands while a table has a free seat.",
 ["histories", "schedules"], HIST + ", and multi-table histories with several tables", "The tests never add up the chips and never run two tables.", ["regulator.go", "competition_engine_internal.go"], [("table regulation", "regulator.go"), ("chip updates", "competition_engine_internal.go settleCompetitionTable")], SEQ)
prop("C21", "Tournament advancement stops at exactly the configured number of players",
 "In a multi-table tournament that sends players on to a next stage, once buying in is over and the advancement rule is met (a level once reached counts as reached during a break, too) the competition ends with advancement recorded and the right players ranked, and not before. While tables still play, their closing hands are awaited and each table is counted once; a table that has played its closing hand is dealt no other. Advancement is announced with the number of players the competition asks for.",
 ["histories", "configurations"], "histories of a tournament of a few players with each advancement rule", "No test configures advancement.", ["competition_engine_internal.go"], [("advancement", "competition_engine_internal.go initAdvancement, handleMTTTableSettlement")], SEQ)
prop("C22", "Every change is announced with a growing serial number",
 "The updates a competition announces carry strictly increasing serial numbers, the time they were made and the competition's identity. No operation, settlement or timer changes the status, blind level, counts, rankings or any player without at least one notification.",
 ["histories"], HIST, WHY + "serials or notifications.", ["competition_engine_internal.go"], [("update emission", "competition_engine_internal.go emitEvent")], SEQ + " Operations arrive one after another; concurrent callers are not claimed.")
prop("C23", "The manager routes every call to its competition only",
 "Through the manager, every operation on a competition has exactly the effect and result of the same operation on that competition alone, and no effect on the others. Operations on unknown competitions are refused with the manager's not-found error and change nothing. A competition that is released is unknown from then on.",
 ["histories", "inputs"], "all operations of the interface, with known, unknown and released ids, in all histories of the bound with two competitions", "No test uses two competitions or an unknown id.", ["manager.go"], [("routing", "manager.go")], SEQ)
prop("C24", "The native table backend forwards everything unchanged",
 "The built-in table backend hands every operation to the table manager with the same arguments, once, and returns its result and error. Every notification of a table - updates, reserved players, readiness for the first hand - reaches the competition unchanged, for every table created through it. A competition played on it behaves as on any other backend with the same tables.",
 ["inputs", "histories", "fault_sequences"], "all operations with succeeding and failing table managers", "The tests use the native backend but observe only that a game finishes.", ["native_table_manager_backend.go"], [("delegation", "native_table_manager_backend.go")], SEQ)
prop("C25", "A player's view never shows other players' cards",
 "An actor that plays as a player is shown, whatever state the hand and the table are in, no other player's hole cards, hand strength or the deck before the showdown reveals them, and its own cards and everything else unchanged; one who is not in the hand sees nobody's. The view that one actor is given never alters the state that others are given.",
 ["inputs", "histories"], "every state of every hand of a few moves, under every table status, shown to every player, to one who sits out and to a stranger", "No test looks at the view.", ["actor/player_runner.go", "actor/actor.go"], [("view filtering", "actor/player_runner.go UpdateTableState")], SEQ)
prop("C26", "The player runner acts for its player only when the time is over",
 "The automatic player passes and pays for its player at once with the right amount. Every other request of the table waits for the player for exactly the action time, counted from the moment the actor is told of it; then the runner answers it once, readying, else checking, else folding. It never acts for a player who acts in time, never before the time is over or on a request that the table has moved past, and never lets a request go unanswered. Consecutive timeouts beyond the threshold suspend the player; while suspended, or with the auto mode on, requests are answered at once, until the player switches it off or folds. The player's own actions reach the table once, with their result, and every wager is announced once with the right amount.",
 ["histories", "schedules"], "all orders of table updates (late, repeated and outdated ones included), player actions here and elsewhere, auto mode switches and timeouts up to the bound, and all interleavings (up to the preemption bound) of a player's action with the updates it causes", "No test uses the player runner.", ["actor/player_runner.go"], [("automation", "actor/player_runner.go requestMove, automate")], SEQ + " An action in the very instant in which the time limit runs out is not claimed.")
prop("C27", "A bot makes exactly one legal move per request",
 "Whenever it is asked, a bot makes exactly one move, among the actions allowed at that moment, with an amount inside the limits of the rules, whatever the random draws and however few chips it has; a bot that imitates people makes it before the action time is over. It pays and readies at once, never moves unasked, twice, or on states it was told before, announces every wager once with the right amount, and asks to join, and does nothing else, while its seat is reserved.",
 ["inputs", "schedules"], "hands with two and three players, several stacks and blinds, the others' moves and the bot's random draws (grid of values that reaches every allowed action and the extremes and the middle of every amount)", "The random draws of a test run are a sample.", ["actor/bot_runner.go"], [("action choice", "actor/bot_runner.go requestAI, calcAction")], SEQ)
prop("C28", "Concurrent player operations behave as if made one after another",
 "Whatever two or three player operations run at the same time, each returns, and the players, totals, table requests and results are those of some order of the operations made one after another. In particular limits on seats, re-buys and add-ons hold, no chips are lost or invented and no player is listed twice.",
 ["schedules"], "all interleavings up to the preemption bound of pairs and triples of player operations in several phases", "Tests call operations one after another.", ["competition_engine.go"], [("operation lock", "competition_engine.go")], "Interleavings are exhaustive up to the stated number of deviations from the default schedule.")
prop("C29", "A competition ends when it is decided, and not before",
 "A single-table tournament whose buying in is over ends by itself within seconds of the hand that leaves fewer players with chips than the table needs, and within about ten seconds of its time limit when its table is not playing. It does not end before the limit while enough players have chips, nor while buying in is open. A hand in progress at the time limit is played to its end and then ends the tournament. A multi-table tournament that has no advancement rule ends within seconds once buying in is over and at most one player has chips left, and not before. A cash game ends with the first hand that settles after its time limit, and with none before.",
 ["histories"], HIST, WHY + "how a competition ends.", ["competition_engine_internal.go"], [("closing a finished competition", "competition_engine_internal.go handleCTTableSettlement, handleCashTableSettlement, handleMTTTableSettlementNextStep, shouldCloseCTCompetition")], SEQ)
prop("C30", "A competition that never starts is ended at its disable time",
 "A competition that is still registering with fewer players than its required minimum when its disable time comes is ended automatically at that time, its tables released. One that has been started, has its players or was ended before is not touched by it.",
 ["histories", "configurations"], HIST + " around the disable time", WHY + "the disable time.", ["competition_engine.go"], [("disable timer", "competition_engine.go CreateCompetition")], SEQ)
prop("C31", "Every call returns and nothing panics",
 "Every operation of a competition returns within a second or two, in every phase, with any player, table or amount, and whatever else is in progress. No operation, notification or timer panics, no internal work is left blocked for ever, and no error is announced as long as the operations are proper and the tables do what they are asked.",
 ["histories", "schedules", "inputs"], HIST + ", with unknown players and tables, and operations made inside the settlement window", WHY + "operations in the wrong phase or at the wrong moment.", ["competition_engine.go", "competition_engine_internal.go", "regulator.go"], [("locking", "competition_engine.go")], SEQ)
prop("C32", "A failing table backend does not corrupt the competition",
 "If any single request to the table backend fails, the operation that needed it reports the failure or goes on, nothing panics or blocks, the status still only moves forward, and the competition can be closed and is then ended and settled once. The player counts stay consistent, no player's chips go negative or are counted twice, nobody is refunded or paid out who keeps the seat, and a refund that fails changes nothing.",
 ["fault_sequences", "histories"], "every history of the families with a failure of each backend request in turn", "No test has a failing backend.", ["competition_engine.go", "competition_engine_internal.go", "regulator.go"], [("error handling", "competition_engine.go")], SEQ)
prop("C33", "A multi-table tournament starts once, when it may, and every table gets going",
 "A multi-table tournament starts when it is asked to by hand or when its scheduled time comes, once, and neither earlier nor when it was ended before. Its blinds begin, and its tables open, once it is started and has enough players, whatever the order of the two; from then on there is a table as soon as enough players with chips wait. The first hand of every table is set up exactly once, for players who sit at it ready and with chips, and a table that has enough of them is not left waiting.",
 ["histories", "schedules"], HIST + " of a multi-table tournament, and all interleavings (up to the preemption bound) of a start by hand with another start, the scheduled start and a buy-in", WHY + "starts, and none starts a tournament twice at once.", ["competition_engine.go", "competition_engine_internal.go", "regulator.go"], [("start", "competition_engine.go StartCompetition, CreateCompetition"), ("opening tables", "competition_engine_internal.go activateBlind; regulator.go activateRegulator, regulatorCreateAndDistributePlayers")], SEQ)
