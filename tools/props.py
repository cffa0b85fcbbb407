E = "competition_engine.go"
I = "competition_engine_internal.go"
NOTE = "bounded: holds for every value of the symbolic inputs within the bounds printed in the evidence; nothing is claimed outside them"
PROPS = []
NA = []


def p(id, title, statement, over, quant, why, files, mech, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))


p("C01", "Buy-in and re-buy are admitted exactly when the rules allow",
  "A buy-in or re-buy is accepted if and only if it redeems a positive number of chips, the competition is registering or in delayed buy-in, and, in tournaments, a returning player is waiting for a re-buy with no chips and re-buys left, while a new CT player still finds room at the table. A rejected request returns an error and leaves players, counters, tables and rankings exactly as they were.",
  ["inputs", "histories"], "every mode, competition status, player record, request and answer of the table, within the bounds",
  "The tests buy in a few well-formed players in one mode; no test tries the rejected combinations or checks that a rejection changes nothing.",
  [E, "competition.go"], [("PlayerBuyIn validation", E + ":PlayerBuyIn")])
p("C02", "An accepted buy-in or re-buy is booked exactly once and seats the player",
  "An accepted buy-in creates one player record, an accepted re-buy updates the existing one: chips and total redeemed chips grow by exactly the redeemed amount, the re-buy count by one for a re-buy, bought units (tournaments) by the units bought, the re-buy window closes, the player counters fit, and nobody else changes. In CT and cash games the table is asked exactly once to reserve a seat with exactly those chips. In an MTT the player waits for a seat, and every player queued before the start is handed to the tables exactly once with his chips when the tournament gets going, except those refunded.",
  ["inputs", "histories"], "every accepted request from every bounded prior state; every order of buy-ins, a refund and the start",
  "Tests only look at the happy path of initial buy-ins and never compare the whole record before and after.",
  [E, I, "regulator.go"], [("PlayerBuyIn effects", E + ":PlayerBuyIn"), ("waiting queue", "regulator.go:activateRegulator")])
p("C03", "An add-on is admitted by the rules and booked exactly once or not at all",
  "An add-on is accepted only for a player of a running competition who is neither knocked out nor waiting for a re-buy, while the current blind level permits add-ons (in a break, when limited to breaks), below the add-on limit and with positive chips, and only if the table hands out the chips. An accepted add-on raises his chips, total redeemed chips and add-on count and the tournament's add-on units exactly once and asks the table exactly once for exactly those chips. A rejected or refused add-on changes no player and no counter.",
  ["inputs", "histories", "fault_sequences"], "every level of the schedule, permission setting, player record, request and table answer",
  "No existing test performs an add-on.", [E], [("PlayerAddon", E + ":PlayerAddon")])
p("C04", "A refund before the blinds run undoes a buy-in completely",
  "A registered player can be refunded exactly until the blinds are running; then his record and his bought units (tournaments) disappear, the CT table is asked once to let exactly him leave, and all other players keep their records. His place is free again: he or somebody else can buy in afterwards with a fresh record. A rejected refund changes nothing.",
  ["inputs", "histories"], "every mode, prior record, refunded player, table answer and subsequent buy-in",
  "No existing test refunds a player.", [E], [("PlayerRefund", E + ":PlayerRefund")])
p("C05", "Cash-out pays a cash player exactly once, between hands",
  "Only players of cash games can cash out. While no hand is running (before the start or while the table pauses) the player is paid exactly his chips, leaves his table and the competition at once; during a hand he is only marked as leaving and is paid exactly once, with the chips of the settled hand, when it settles. Nobody else is paid, removed or asked to leave, and the player counters fit.",
  ["inputs", "histories", "fault_sequences"], "every phase, set of leaving players, stacks and table answers",
  "No existing test covers cash games at all.", [E, I], [("PlayerCashOut", E + ":PlayerCashOut"), ("settlement of leaving players", I + ":handleCashTableSettlement"), ("pay-out", I + ":handleCashOut")])
p("C06", "Quits and re-buy windows end exactly for the players they concern",
  "A quit is accepted exactly for a CT player who is not knocked out, at an existing table, before late buy-in closes, and leaves him waiting for a re-buy without a seat and without a window. A broke CT or cash player who may re-buy keeps his seat until his window ends; if he has not re-bought or quit by then he leaves his table exactly once (a cash player is cashed out exactly once), while players who re-bought or quit in time and all others are not touched.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every level, player status, window length, re-buy count and limit, and one action before the expiry",
  "The timers need minutes of real time and specific interleavings; no test waits for a re-buy window.",
  [E, I], [("PlayerQuit", E + ":PlayerQuit"), ("window timer", I + ":handleReBuy")])
p("C07", "Every settled hand updates stacks, hand counts and table ranks exactly once",
  "When a table reports a settled hand, every player seated at it has exactly the chips of his table, every participant has one more hand and a table rank that orders the participants by chips and then by joining time, and players elsewhere are untouched. Reporting the same hand again changes nothing; the next hand of the table counts again.",
  ["inputs", "histories"], "every bankroll, participation, joining time and repetition of a report",
  "Tests settle a few real hands with fixed stacks and never repeat a report.",
  [I, "rank.go"], [("settled-hand record", I + ":settleCompetitionTable"), ("table ranking", "rank.go:GetParticipatedPlayerTableRankingData")])
p("C08", "Hand statistics of every player add up exactly",
  "After a settled hand each participant's totals (folds by round, actions, raises, calls, checks, chances and occurrences of VPIP, PFR, ATS, 3-bet, fold to 3-bet, check-raise, continuation bet, fold to continuation bet and showdown wins, won hands, walks) grow by exactly what the hand reports, and his best pot and best winning combination are the maximum over his won hands. Players who sat out keep their statistics.",
  ["inputs", "histories"], "every combination of statistic flags, action counts, results, hand strengths and prior totals",
  "No test compares statistics; thirty independent flags cannot be sampled.",
  [I], [("record update", I + ":updatePlayerCompetitionTableRecords")])
p("C09", "Broke players are knocked out or wait for a re-buy, exactly by the rules",
  "After a settled hand a player with chips is neither knocked out nor waiting; a broke player waits for a re-buy if late buy-in is open and he has re-buys left (a running window is not extended), and is knocked out otherwise: his final rank, behind all players with chips and ordered by joining time among those knocked out together, is announced exactly once and he enters the ranking once. Knocked-out CT players and broke MTT players are asked to leave their table once, and a player once knocked out stays so.",
  ["inputs", "histories"], "every set of broke players, prior status, re-buy counts and limits, before and after late buy-in closes",
  "Tests never check who waits and who is out, or the ranks announced, for simultaneous knock-outs.",
  [I, "rank.go"], [("re-buy handling", I + ":handleReBuy"), ("knock-outs", I + ":handleTableKnockoutPlayers"), ("order", "rank.go:GetSortedTableSettlementKnockoutPlayerRankings")])
p("C10", "The live ranking is a strict order of all players",
  "After every buy-in, re-buy, add-on, refund, cash-out, expired re-buy window, settled hand and the end of late buy-in, every player of the competition has a rank and the ranks are exactly 1 to n without ties or gaps. Players with chips come first, ordered by chips and then by joining time, then the players who wait for a re-buy, the latest broke first, then the players knocked out, the latest first.",
  ["inputs", "histories"], "every operation from every bounded prior state of the players",
  "Tests never look at ranks after anything but a plain hand.",
  [E, I, "rank.go"], [("rank refresh", I + ":refreshPlayerCompetitionRanks"), ("order", "rank.go:GetPlayerCompetitionRankingData")])
p("C11", "The final ranking lists every ranked player in his final place",
  "When a running competition is closed, the final ranking lists every player with chips, by chips and then by joining time, followed by everybody who had been knocked out, the latest first, with their final chips; each player with chips is announced exactly once with his place and nobody is announced twice. In a tournament played to its end every player's announced rank is his final place, so the ranks are a permutation of 1 to n. A competition closed before it ran has no final ranking.",
  ["inputs", "histories"], "every set of players with chips, waiting and knocked out, every end status; every sequence of knock-outs over the bounded number of hands",
  "Tests close one competition with one history and print the result.",
  [I, "rank.go"], [("final ranking", I + ":updatePlayerFinalRankings"), ("announcements", I + ":handleTableKnockoutPlayers")])
p("C12", "An ended competition stays ended",
  "However a competition is closed, it is settled and its tables are released exactly once. Afterwards its status, its times, the final ranking, every player's rank and chips stay as they are: buy-ins, add-ons, quits, cash-outs, a start and a second close are refused, and no table report, seat reservation, level, re-buy window, pause or pending timer changes a player, moves the blinds, ranks anybody or starts, sets up, closes, creates or gives new blinds to a table.",
  ["inputs", "histories", "schedules"], "every mode and phase at the close, every end status, every request and report after it, every pending timer",
  "Timers that fire minutes after the end and late reports cannot be sampled by tests that end with the competition.",
  [E, I], [("close", I + ":settleCompetition"), ("end status", I + ":isEndStatus")])
p("C13", "Late buy-in closes once, knocks out exactly the waiting, and ends dead games",
  "Late buy-in stays open until its last level has ended and never ends without one. When it ends, in tournaments exactly the players who wait for a re-buy are knocked out, announced and ranked once, behind all players with chips and by joining time, and leave the table they still sat at, with chips and statistics kept; cash players are not touched. A tournament left without a table, or with one table without two live players, ends then; any other goes on.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every bounded set of player states, re-buy windows and last levels, and a table that refuses to let players leave",
  "The tests end before late buy-in does.", [E, I], [("end of late buy-in", I + ":initBlind")])
p("C14", "The counters always equal what they count",
  "After every buy-in, re-buy, add-on, refund, cash-out, quit, re-buy expiry and settled hand the number of players in each status equals the players who are in it, the units bought (tournaments) are those of the registered players, the add-on units are those of the accepted add-ons, and nobody is registered twice.",
  ["inputs", "histories", "fault_sequences"], "every bounded sequence of operations from every bounded prior state, every table answer",
  "Tests never compare counters with the players after combinations of operations.",
  [E, I], [("counters", I + ":refreshPlayerCompetitionRanks"), ("statistics", "competition.go:Statistic")])
p("C15", "The blind clock runs every level on time, in order, once",
  "A started clock begins at its initial level; every level ends after exactly the lengths of all levels up to it and is followed by the next one, which is reported once; the last level stays. A missing schedule or initial level is an error that changes nothing, a running clock cannot be started again, and a stopped clock stands still. The competition shows the same level, end times, breaks and end of late buy-in.",
  ["inputs", "schedules"], "every schedule up to the bound with symbolic lengths, every initial level, stops at any level",
  "The levels of a real schedule last minutes; tests see one or two of them.",
  ["blind/blind.go", I, "competition.go"], [("clock", "blind/blind.go:Start"), ("competition's copy", I + ":initBlind")])
p("C16", "Tables play the blinds of the running level and rest in breaks",
  "At every level that is not a break each table gets exactly that level's ante and blinds, once, and a new table starts with those of the running level. In a break nothing is started or set up, through consecutive breaks; one second after it every table with enough live players resumes exactly once, with its next hand and the players who are in and have chips, or is started if it has not played yet. A table that refuses the blinds is reported.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every bounded schedule, amounts, table phases at the break, broke and sitting-out players",
  "No test plays through a break; the order of timers at its ends is not reachable by real waiting.",
  [I, E], [("level change", I + ":initBlind"), ("resume", I + ":handleBreaking")])
p("C17", "A competition starts exactly when its start conditions hold, once",
  "A CT or cash game starts its table once, with its blinds, exactly when the time has come (scheduled, by hand, or at once for a cash game) and enough seated players are ready; an MTT starts its clock once started and enough players bought in, and creates its tables then. The start records the start and end time and opens late buy-in exactly when there is one. A second start is refused, a failing start is reported, and until then nothing changes.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every bounded combination of start time, minimum, ready players, order of events and table failure",
  "Tests use one start setting; conditions that come true in another order are not tried.",
  [E, I, "regulator.go"], [("start gate", I + ":canStartCash"), ("MTT start", "regulator.go:activateRegulator")])
p("C18", "A competition ends exactly when one of its end conditions holds",
  "At the closing time a registering competition without enough players ends by itself. After late buy-in a CT ends three seconds after the hand that leaves its table fewer live players than it needs, an MTT after the hand that leaves one table and only one player with chips, seated or waiting; a CT also ends when its time is up after a hand, its table opens no more hands, or at its end time by closing its table unless a hand runs; any competition ends once with its last table. Everything else goes on, and a table of another competition changes nothing.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every bounded mode, status, survivor set, time and duration, table status and table failure",
  "Tests end by closing; most end conditions need hours of real time.",
  [I, E], [("after a hand", I + ":shouldCloseCompetition"), ("closed table", I + ":closeCompetitionTable")])
p("C19", "A competition is created exactly as asked for, or not at all",
  "A competition is created if and only if its start time is unset or lies ahead, its closing time lies ahead, every table setting fits the seats, and the tables can be created. A new competition is registering with exactly its settings and times, without players, counts or a running clock; a CT or cash game asks for exactly its tables, with their players and the rules of the competition, an MTT for none. If it is not created no timer stays behind that could start or end it.",
  ["inputs"], "every mode, times, settings, table settings and backend answer",
  "Tests create a handful of valid competitions and never check what was handed to the tables.",
  [E, "competition_settings.go"], [("creation", E + ":CreateCompetition"), ("table setting", "competition_settings.go:NewPokerTableSetting")])
p("C20", "MTT players always sit at exactly one table, with their chips",
  "After the start, every settled hand, buy-in, re-buy and the end of late buy-in, every MTT player with chips plays at exactly one table, the one he is shown at, with exactly his chips, or waits for a table; broke players have left theirs. No table holds more players than seats, the tables hold exactly the players the balancer decided, new tables get new identities and the configured size, and a table without players is closed once and listed no more. Players are moved away in the order of their next big blind, and after late buy-in players who fit at one table end up there. A table that cannot be created or that refuses to be balanced is reported, and nobody is shown as moved by it.",
  ["inputs", "histories"], "every bounded sequence of hands, knock-outs, buy-ins, re-buys and the end of late buy-in at tables of every bounded size",
  "Table balancing only shows over several hands at several tables; the existing tests of it are commented out.",
  [I, "regulator.go"], [("balancing", I + ":handleMTTTableSettlementNextStep"), ("new tables", "regulator.go:regulatorCreateAndDistributePlayers")])
p("C21", "The advancement pauses every table once and then ends the competition",
  "In an MTT with an advancement rule the host is asked once, when late buy-in is over, how many players advance. From then on a hand that finds the rule fulfilled (fewer players with chips left than asked for, or the blind level reached) pauses its table, which is counted once, not balanced and never dealt again, not on a pause report or after a break; other hands are balanced as usual. Three seconds after the last open table is paused, or one player is left at the only table, the competition ends; before that it does not.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every bounded sequence of hands, knock-outs, levels, pause reports and refused pauses, every number or level asked for",
  "The tests of the advancement are commented out; it needs several tables and the end of late buy-in.",
  [I, "regulator.go"], [("advancement", I + ":handleMTTTableSettlement"), ("its start", I + ":initAdvancement")])
p("C22", "The manager and the native table backend pass on exactly what they are given",
  "A request made through the manager has the same effect, result and table requests as one made to that competition's engine, reaches no other competition, and is refused for an unknown one; a released competition is no longer found, and an id stands for the competition last created under it. Every event carries the competition it belongs to, also when several competitions share one native table backend. The native table backend hands every request on unchanged with its answer, and reports every table update, reservation and ready first hand as a private copy.",
  ["inputs", "histories"], "every request and report of two competitions of every mode, every table answer and event, with symbolic arguments",
  "Every test runs one competition in one mode, and no test compares the manager with the engine.",
  ["manager.go", "native_table_manager_backend.go", E], [("the manager", "manager.go:CreateCompetition"), ("the native backend", "native_table_manager_backend.go:CreateTable")])
p("C23", "A paused table is dealt again, and a first hand opened, with those who can play",
  "When a table reports a pause outside breaks and at least the table's minimum of players are in with chips (and, in a CT, late buy-in is open), it is set up once for its next hand with exactly those players, each with his place in the table's list; otherwise nothing is asked of it, and no player, counter or other table changes. A table that is ready for its first hand is set up in the same way for the hand it names, and the answer of the table is passed on.",
  ["inputs", "histories", "fault_sequences"], "every table with the bounded number of players of any stack and presence, in every mode and status",
  "The tests never pause a table with absent or broke players.",
  [I, E], [("pause reports", I + ":updatePauseCompetition"), ("first hands", E + ":ReadyFirstTableGame")])
p("C24", "Player requests made at the same time take effect one after the other",
  "Two player requests (buy-in, re-buy, add-on, refund, cash-out, quit; of the same or of different players) that are made at the same time leave the players, counters, ranks, tables and answers of one of them after the other, in some order, whatever statement of the one the other interrupts. A request also returns when its table reports back (a reservation, a pause, a hand under way) while it is still being asked.",
  ["schedules", "inputs"], "every interruption of every request by every other, for every mode, before and after the start",
  "The tests call one request after the other; a race needs a switch at one particular statement.",
  [E], [("the lock", E + ":PlayerBuyIn"), ("cash-out", E + ":PlayerCashOut")])

p("C25", "Bots only make legal moves and answer every request for one",
  "A bot asked to get ready, to pass or to pay does so at once, with exactly the ante or blind of its position; a bot to act makes exactly one move, for itself, which is among the allowed ones, a bet or raise lying between the minimum and its stack, whatever the random numbers, and when it plays like a human it acts before the time to act is over. An accepted wager is reported once with the table, hand, round and amount, and the answer of the table is passed on. It does nothing for outdated states, between hands, when it is not in the hand or not to move, and asks for its seat when it has not sat down.",
  ["inputs", "schedules"], "every betting state of the poker library, every random number, position, stack and table answer",
  "The actor test plays a few random hands and never looks at the single moves of the bots.",
  ["actor/bot_runner.go", "actor/actor.go", "actor/actions.go"], [("the bot", "actor/bot_runner.go:requestMove"), ("its choice", "actor/bot_runner.go:requestAI")])
p("C26", "A player sees the whole table but never hidden cards",
  "A subscribed player is told once about every state of his table, unchanged except that the deck, the burned cards and the cards and combinations of the others are hidden as long as the hand runs, whatever the status of the table; after its end only folded hands stay hidden. The state is a copy: the table and its hand are left alone. Through the adapter a move reaches the table engine once, exactly as it was made, and its answer reaches the player.",
  ["inputs", "configurations"], "every table status, hand event, set of folded players and place of the player",
  "No test looks at what a player runner is shown.",
  ["actor/player_runner.go", "actor/table_engine_adapter.go", "actor/actions.go"], [("hiding", "actor/player_runner.go:UpdateTableState"), ("the adapter", "actor/table_engine_adapter.go:UpdateTableState")])
p("C27", "A player is waited for exactly his time, and moved for only then",
  "Passes and forced bets are made at once with the exact amount; otherwise a player has the table's time to act, and when it ends the runner gets ready, else checks, else folds for him, once. His own accepted move ends the wait for it and for no other, is made and reported exactly once with its hand, round and amount; a newer state replaces the wait, an older one changes nothing. The auto mode, in which he is moved for at once, starts when switched on or after the configured number of timeouts in a row, never sooner, and ends when switched off or when he folds himself.",
  ["inputs", "histories", "schedules"], "every list of allowed actions, history of answers and timeouts, threshold, amount and order of the next request",
  "The tests always answer in time; no timeout, auto mode or late answer occurs.",
  ["actor/player_runner.go"], [("waiting", "actor/player_runner.go:requestMove"), ("the auto mode", "actor/player_runner.go:Idle")])
p("C28", "A listener that keeps what it was told knows the competition",
  "After every operation, timer and table report, the last competition a listener was shown by the update event, together with the player updates, the rank events and the cash-out events, equals the competition as it is: status, times, tables, blind level, players, units, ranking and advancement. The player updates alone tell each registered player's record. Every update carries the next serial number.",
  ["histories", "inputs"], "every operation and sequence of events from the creation to the end, in any mode and with several tables",
  "The tests only log the events; no test compares what listeners were told with the state.",
  ["event.go", "competition_engine.go", "competition_engine_internal.go"], [("events", "event.go:emitEvent"), ("player updates", "event.go:emitPlayerEvent")])
