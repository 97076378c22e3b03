prop("B01", "Supply conservation",
 "At every point of every history, and for each denomination, the recorded total supply equals the sum of all account balances and no balance is negative. The total over all denominations grows only by delegation awards being accrued, and shrinks only by explicit burning, by the burnt share of a revocation and by the burnt share of transaction fees.",
 H, "every sequence of blocks and transactions, after each transaction and each block phase",
 "Unit tests compare balances for a handful of hand-written operations; conservation has to hold after any interleaving of all money-moving operations.",
 [BK, DK, NK], [("balances and supply updates", "x/bank/internal/keeper"), ("accrual, freezing and burning", DK)],
 [("balances", "coins per account", "bank store"), ("supply", "recorded totals", "supply store")], AFTER,
 "runtime monitor: conservation invariant after every executed step of generated chains", NOTE)

prop("B02", "Transfers and burns move exactly what they say",
 "A successful transfer takes exactly the amount and the transaction fee from the sender, gives exactly the amount to the recipient and changes nothing else; a successful burn removes exactly the burnt coins from its signer and from the supply. A transfer fails, changing no balance, exactly when it breaks one of the documented rules: sender blocked, amount below the minimum, a denomination that may not be sent, an unknown recipient, or not enough coins for the amount with the fee.",
 H, "every transfer and burn, whatever the amounts, parameters, participants and preceding history",
 "Amounts, fee rates, caps and rounding, blocked senders and self transfers combine in far more ways than the few cases tests pick.",
 [BK, "x/bank/internal/keeper/msg_server.go", "util/fee.go"], [("send", BK), ("transaction fee", "x/bank/internal/keeper")],
 [("balances", "coins per account", "bank store")], ["after every DeliverTx"],
 "runtime monitor: reference model predicts verdict and complete balance change of every transfer and burn", NOTE)

prop("B03", "Fees are charged, shared and burnt exactly",
 "Every fee-bearing operation pays the transaction fee the current parameters prescribe (rate, rounding and cap) into the pool, and nothing else reaches the pool. Each block hands the whole pool out: the proposer and the company get exactly their shares, rounded down, and the remainder is burnt, so nothing is kept back and nothing is paid twice.",
 H, "every block and every fee-bearing operation under every valid combination of fee parameters",
 "Rounding and caps depend on amounts and on share denominators, and the pool mixes contributions of many operations in one block.",
 [BK, NK, "util/fee.go"], [("fee collection", "x/bank/internal/keeper"), ("fee distribution", NK)],
 [("fee pools", "balances of the fee collecting module accounts", "bank store")], ["after every DeliverTx and BeginBlock"],
 "runtime monitor: fee flow ledger rebuilt from observed balances, parameters and events", NOTE)

prop("A01", "All or nothing transactions; queries, checks and simulations change nothing",
 "A transaction that fails leaves the state as it was, apart from its sender's sequence number. Checking, simulating or querying, with any input, never alters the state, never stops the node and never influences the results of the blocks that follow.",
 ["histories", "inputs", "fault_sequences"], "every failed transaction, and every query, check and simulation, valid or hostile, at any point of a block",
 "Tests check single keeper calls and never compare the whole state around a failing transaction or an arbitrary query.",
 ["app/app.go", "app/ante.go"], [("transaction execution", "app/app.go"), ("queries", "x/*/keeper/query_server.go")],
 [("whole store", "every key and value", "all stores")], ["around every DeliverTx, CheckTx, Simulate and Query"],
 "runtime monitor: byte comparison of the whole store around failing transactions and hostile probes", NOTE)

prop("A02", "Every node computes the same",
 "Nodes that execute the same blocks report the same results, events, validator updates and application hashes for every block. This holds no matter what else they are asked between the blocks, how they are set up (caching between blocks, pruning, minimal gas prices), and whether they are restarted between blocks or die in the middle of a block and execute it again.",
 ["histories", "crash_points", "schedules"], "every history, every crash point within a block, every interleaving of unrelated requests",
 "A test runs one node once; map iteration order, in-memory leftovers and partially executed blocks only show up when executions are compared.",
 ["app/app.go", "util/msg_server.go", "x/schedule/keeper/keeper.go"], [("block execution", "app/app.go"), ("events", "util/msg_server.go")],
 [("application hash", "digest of all stores", "multistore"), ("block results", "responses to ABCI calls", "app/app.go")], ["responses to every ABCI call"],
 "runtime monitor: replay of every recorded chain on further nodes with restarts and crash injection, comparing all outputs", NOTE)

prop("Q01", "Queries answer what the state is",
 "Every query, whenever it's asked (while a block is being executed, too), answers from the last committed state or that of the past height it names: balances, supply, delegations, awaited payments, network totals, profiles by address, nickname and card number, storages, validators, their states, operators and queue, proposers of past blocks, tasks, proposals, polls, histories and parameters are exactly those the state holds. A paged list is a contiguous part of the whole list in order. The older form of queries (custom/MODULE/PATH) gives the same answers.",
 H, "every query with every argument at every committed height",
 "Tests query a few fixed objects; answers must be right for every object in every state and for every page.",
 ["x/bank/internal/keeper/query_server.go", "x/referral/keeper/query_server.go", "x/noding/keeper/query_server.go", "x/voting/keeper/query_server.go"],
 [("query servers", "x/*/keeper/query_server.go")], [("committed state", "state after the last commit", "all stores")], ["responses to Query"],
 "runtime monitor: answers to queries over all services compared with the observed state", NOTE)

prop("D01", "Delegating and revoking move exactly the stated coins",
 "A successful delegation takes exactly the stated amount of its sender's free coins: the transaction fee out of it, the rest becomes delegated. A successful revocation (ordinary or express) takes exactly the stated amount out of the delegation at once, burns the burnt share of the respective parameters (rounded down) at once and books the rest as awaited payment. Neither changes anybody else's coins. Both fail, changing nothing, exactly when the amount is below the minimum or exceeds what the sender has.",
 H, "every delegation and revocation, ordinary and express, with every valid parameter set, alone and several per block",
 "Burnt shares, minimum, dust, accrual of the part of a day and several requests of one account combine in too many ways for samples.",
 [DK], [("delegate, revoke, express revoke", DK)], [("delegations", "delegated and being revoked coins", "bank and delegating stores")],
 ["after every DeliverTx"], "runtime monitor: reference model predicts verdict and complete balance change of every delegating and revoking transaction", NOTE)

prop("D02", "Revoked coins are paid exactly once, in time",
 "Every revocation is paid out exactly once, exactly the awaited amount, to the account that asked for it, in the first block whose time has reached the promised moment and never earlier. Pending payments survive any other operation on that account and the list of awaited payments is exactly what is still to be paid.",
 ["histories", "schedules"], "every set of pending revocations under every sequence of block times",
 "Payments come due days later, among arbitrary other operations and with irregular block times; tests wait for a single one.",
 [DK, SK], [("maturing of revocations", DK), ("scheduled tasks", SK)],
 [("requests", "awaited payments", "delegating store"), ("schedule", "planned tasks", "schedule store")], ["after every block phase"],
 "runtime monitor: ledger of promised payments matched one to one with observed payments", NOTE)

prop("D03", "Awards for delegated coins are exact",
 "For each day a delegation exists its owner is awarded exactly the daily share of the delegated coins that the rate table prescribes for the amount and for the bonuses the owner qualifies for (validator, subscription, VPN, storage), rounded as documented; for a part of a day, when the delegation changes, the respective part. The award is delivered once, less the fee.",
 ["histories", "schedules"], "every delegation history, rate table, set of bonuses and sequence of block times",
 "Rates depend on five conditions and on the amount; parts of days depend on the exact times of changes; tests fix all of them.",
 [DK, "x/delegating/types/params.go"], [("accruing", DK)], [("delegations", "delegated coins and next accrual times", "delegating store")], ["after every DeliverTx and block phase"],
 "runtime monitor: reference calculation with exact fractions of each award from the state before it", NOTE)

prop("D04", "Ancestors who validate get exactly their share of awards",
 "From every award, the validators in good standing among the owner's ancestors get exactly the share that their status and distance entitle them to, less what closer ancestors have already got, and nobody else gets anything.",
 H, "every referral tree, assignment of statuses and set of validators",
 "The share depends on the statuses, distances and standing of up to twenty ancestors at once.",
 [DK, RK], [("ancestors' shares", DK)], [("delegations", "delegated coins", "bank store"), ("referral tree", "referrers and statuses", "referral store")], ["after every accrual"],
 "runtime monitor: reference calculation of the shares of all ancestors for every award", NOTE)

prop("R01", "The referral structure is a forest",
 "At all times every participating account is listed among the referrals of exactly one other account, its referrer, except the top ones; nobody is their own ancestor; referrers, lists of referrals and lists of active referrals agree. An account's place changes only by its registration, an affirmed transition, the compression of its referrer (referrals go to the next referrer up) or its return, and always as described.",
 H, "every history of registrations, transitions, compressions, banishments and returns",
 "Each operation rewires several records at once; tests look at the few they expect to change in one fixed tree.",
 [RK], [("structure changes", RK)], [("referral tree", "referrers, referrals and active referrals", "referral store")], ["after every step"],
 "runtime monitor: structural invariants over the whole forest and reference model of each rewiring", NOTE)

prop("R02", "Network totals equal what the network really has",
 "At all times the totals kept for every account, its coins and its delegated coins on each of the eleven levels of its network and the active referrals on each level, equal what recounting the actual accounts below it gives.",
 H, "every history of payments, delegations, (de)activations and structure changes, in networks of any shape and depth",
 "Totals are maintained incrementally along ten ancestors by a dozen different operations; any missed or doubled update stays forever, and tests only check some records after single operations.",
 [RK, "x/referral/keeper/bunch_updater.go", BK], [("incremental updates", "x/referral/keeper/bunch_updater.go"), ("structure changes", RK)],
 [("totals", "coins, delegated coins and active referrals per level", "referral store")], ["after every step"],
 "runtime monitor: recount of the whole forest compared with the kept totals after every step", NOTE)

prop("R03", "Statuses are what the requirements give",
 "A status rises as soon as the requirements of a higher one are met (and never otherwise), and is lost, one level at a time, only after the requirements have been unmet for the whole grace period; a planned downgrade exists exactly while the requirements are unmet and is cancelled when they are met again. The lists of accounts by status agree with the accounts.",
 ["histories", "schedules"], "every history that changes networks, for every status",
 "Requirements combine totals and statuses of whole networks; changes far below must be noticed, in any order, and grace periods overlap other events.",
 [RK, "x/referral/keeper/status_requirements.go"], [("status checks", "x/referral/keeper"), ("downgrades", RK)],
 [("statuses", "status and planned downgrade", "referral store"), ("lists by status", "accounts with a status", "referral store")], ["after every step"],
 "runtime monitor: independent evaluation of the documented requirements for every account after every step", NOTE)

prop("R04", "Inactivity, compression, banishment and return happen as and when due",
 "An account that becomes inactive is compressed exactly after the prescribed time unless it has become active again, losing its place and network; an inactive, childless account without delegation worth keeping is banished when its time comes, unless it recovers, and a banished one that pays again gets back to where the rules say. None of it happens early, late or twice, or without need.",
 ["histories", "schedules"], "every history of lapses, payments and block times",
 "The steps come months apart and interact with everything that may happen in between.",
 [RK, SK], [("compression and banishment", RK)], [("activity", "activity and planned compression or banishment", "referral store"), ("schedule", "planned tasks", "schedule store")], ["after every step"],
 "runtime monitor: reference life cycle automaton per account checked against records, tasks and events", NOTE)

prop("R05", "Moves to another referrer are asked for, paid and resolved properly",
 "A transition can be asked for exactly when the rules allow (no cycle, participating destination, no other request pending) and costs exactly the price; it's carried out only if the current referrer agrees in time and it is still possible, and then moves the subject with its whole network; it's cancelled by refusal or timeout, once, and then changes nothing.",
 ["histories", "schedules"], "every sequence of requests, answers, timeouts and other structure changes",
 "Requests stay open for days while either end of the move may be compressed, banished or moved.",
 [RK, "x/referral/keeper/msg_server.go"], [("transitions", RK)], [("transition", "asked for destination", "referral store"), ("schedule", "timeouts", "schedule store")], ["after every step"],
 "runtime monitor: reference model of requests, resolutions and timeouts", NOTE)

prop("S01", "Scheduled tasks are performed exactly once, in order, when due",
 "Every scheduled task that isn't cancelled is performed exactly once, in the first block whose time has reached its moment (a task scheduled for a moment that has already come, at the latest in the next block), never earlier, in the order of moments and, within a moment, of scheduling, with its own data. A cancelled task is never performed, others aren't affected by cancellations, by failing tasks or tasks without a handler, nor by restarts of the node.",
 ["histories", "schedules", "crash_points"], "every set of tasks, including ones scheduled and cancelled by tasks being performed, under every sequence of block times",
 "Tests perform one or two tasks; same moments, tasks that schedule or cancel others while the schedule is being performed, skipped moments and failures need long random histories.",
 [SK], [("scheduling, cancelling and performing", SK)], [("schedule", "planned tasks", "schedule store")], ["at every task performed", "after every block phase"],
 "runtime monitor: probe tasks planted among the real ones, every execution logged and compared with a reference schedule", NOTE)

prop("P01", "Profiles belong to their owners; names and cards are unique",
 "A successful profile update changes exactly the requested settings of the sender's own profile, and charges the rename fee exactly when a new nickname is set; a successful account creation gives the new account its card, the chosen referrer, the chosen settings and nickname and nothing that has to be paid for, for the creation fee unless the creator is exempted. No two profiles have the same nickname (in whatever case) or card; every nickname, in any case, and every card leads to its owner and former nicknames lead nowhere. Nicknames that are too short, look like a card, contain forbidden characters or are taken are refused.",
 ["inputs", "histories"], "every sequence of creations and updates with every combination of settings and nicknames",
 "Names change hands in different cases, are given up and taken again; tests rename one account once.",
 [PK], [("creation", "x/profile/keeper/msg_server.go"), ("update and indices", "x/profile/keeper/keeper.go")],
 [("profiles", "settings, nickname, card", "profile store"), ("indices", "nickname and card to address", "profile alias and card stores")], AFTER,
 "runtime monitor: reference model of profiles and complete lookup of names and cards after every step", NOTE)

prop("P02", "A subscription is paid exactly once a month and makes the account active exactly while it's paid",
 "Paying the subscription takes exactly the price the current rate, price and storage prescribe, hands it to the company and the fee pool, prolongs the subscription by exactly one month and gives the account the storage it has been paid for. At the end of every paid month it's either charged automatically (if allowed and affordable) or the account becomes inactive; counters and limits are reset once a month. An account is active in the referral program exactly while its subscription is paid, every change is announced, and nothing else changes.",
 ["histories", "schedules"], "every history of payments, automatic payments, expiries, price changes and storage changes",
 "Renewals interleave with manual payments, parameter votes and storage changes over months; tests check single payments.",
 [PK], [("payment", "x/profile/keeper/subscription.go"), ("renewal", "x/profile/keeper/subscription.go")],
 [("profiles", "paid until, limits", "profile store"), ("activity", "referral info", "referral store"), ("scheduled renewals", "tasks", "schedule store")], AFTER,
 "runtime monitor: reference model predicts verdict, payment and profile for every payment and every renewal", NOTE)

prop("P03", "Storage, VPN and messenger space are sold and returned exactly",
 "Buying storage, VPN traffic or messenger space charges exactly the price for the remaining part of the paid period and raises exactly the bought limit; giving space up lowers exactly the requested limit, never below what is in use or the base amount. Extra messenger space is prolonged by exactly one month when it's paid for, manually or automatically, and ends otherwise, without any charge; exactly one renewal is scheduled for it.",
 ["histories", "inputs"], "every purchase, return, prolongation and expiry, whatever the amounts, rates, remaining time and history",
 "Amounts, token rates, remaining time and current limits combine freely, and renewals depend on histories of months.",
 [PK], [("purchases", "x/profile/keeper/subscription.go"), ("messenger renewal", "x/profile/keeper/subscription.go")],
 [("profiles", "limits", "profile store"), ("scheduled renewals", "tasks", "schedule store")], AFTER,
 "runtime monitor: reference model predicts verdict, payment and profile for every purchase, return and renewal", NOTE)

prop("N01", "The validator set is the one the ranking gives",
 "After every block the consensus engine's validator set consists of exactly the active validators (switched on, not jailed, not banned) with the highest scores, at most the allowed number of them, with the voting power of the slice their position falls in (equal scores having equal powers), and of those at the head of the lottery queue, at most the allowed number of them, with the power of lucky ones. All other active validators wait in the queue, in the order they joined it; whoever proposes or misses a block or offends goes to the end of it. Updates never mention a node twice, never remove one that isn't in the set, and two active validators never share a key. What's reported as a validator's state (top, lucky, spare, jailed, banned, off) agrees with that.",
 ["histories", "fault_sequences"], "every history of validators going on and off, missing blocks, offending, being jailed, released and banned, and of changed limits and power slices",
 "The set depends on the whole history of scores and of the queue; tests look at a few blocks with a few validators.",
 [NK, "x/noding/keeper/abci.go"], [("ranking and updates", NK)],
 [("validators", "score, lottery number, flags", "noding store"), ("validator set", "powers by public key", "EndBlock responses")], ["after every EndBlock"],
 "runtime monitor: reference model accumulates the validator updates and compares the set with the ranking computed from the observed state", NOTE)

prop("N02", "Missed blocks and offences have exactly the prescribed consequences",
 "Every missed block is counted once; missing the prescribed number of blocks in a row jails the validator, for the prescribed number of blocks, and nothing else does. A jailed validator is released exactly by its own request, not before its time is up, and only if its key isn't taken. The second piece of evidence of misbehaviour, however old, bans for life, and nothing else does: a banned validator is never active again. Signed blocks in a row are counted, and an amnesty wipes out missed blocks and imprisonments only. Each is announced by an event exactly when it happens.",
 ["histories", "fault_sequences"], "every sequence of votes, absences, pieces of evidence, switching on and off, and requests for release",
 "Counters interact over long histories (jailed while switched off, evidence about former operators, release at the exact height); tests follow one validator.",
 [NK, "x/noding/keeper/abci.go"], [("votes and evidence", "x/noding/keeper/abci.go"), ("jail", NK)],
 [("validators", "counters, jail, infractions", "noding store")], AFTER,
 "runtime monitor: reference model predicts every validator's record after every block and transaction", NOTE)

prop("N03", "Only qualified accounts are validators",
 "An account can switch its node on exactly if it has the required status, own stake and network stake (or is a staff member), isn't banned, isn't on already and nobody else uses the key. As soon as an active validator loses what is required, by whatever operation in its network, it's switched off, with an event that states the reason; nobody who meets the criteria is switched off, and nobody is switched on without asking. New criteria apply from the next change on. A validator's score always agrees with its current network stake, signed and missed blocks.",
 H, "every operation that can change a status or a stake anywhere in a validator's network",
 "Stakes and statuses change as a side effect of what other people do: delegations, moves, banishments, statuses opening new lines; tests change them directly.",
 [NK, RK, DK], [("qualification", NK), ("stake and status callbacks", RK)],
 [("validators", "status, score", "noding store"), ("network stakes", "delegated coins by line", "referral store")], AFTER,
 "runtime monitor: qualification and scores recomputed from balances and referrers after every step", NOTE)

prop("N04", "The reward for every block goes to its proposer and is recorded once",
 "For every block its proposer is recorded exactly once, for the account operating the node at that time; the record never changes afterwards, a validator's number of proposed blocks agrees with it, and a query for the block answers that account.",
 ["histories"], "every history of validators changing keys and operators, being jailed, banned or switched off",
 "Proposers are resolved through an index of consensus addresses that changes with switching on, jail and bans.",
 [NK, "x/noding/keeper/abci.go"], [("proposer record", NK)],
 [("proposers", "block heights by validator", "noding store")], ["after every BeginBlock", "query of every past block"],
 "runtime monitor: independent ledger of proposers compared with store and queries after every block", NOTE)

prop("V01", "Proposals are decided by the government and take exactly the decided effect",
 "Only members of the government propose and vote, each at most once per proposal, the author counting as agreed, and at most one proposal is open at a time. A proposal is finished as soon as everyone has voted, accepted if at least two thirds of the government agreed, or is rejected when the voting period is over. What is in force (every module's parameters, the members of the government, signers, free creators, blocked senders, staff validators, the scheduled software upgrade) changes only by accepted proposals, token rates apart, and then in exactly the proposed way: somebody added to a list is in it once, somebody removed isn't in it any longer; what can't be put in force (removing the last earning signer or the last member of the government included) leaves everything as it is. Every finished proposal is announced by an event and kept in the history with its votes.",
 ["histories", "schedules"], "every sequence of proposals of every type and votes, of time steps, and of governments growing and shrinking, with several proposals in one block",
 "There are dozens of proposal types, whose effects land in all modules; which one breaks what depends on who is on which list and when the vote ends.",
 [VK, "x/voting/keeper/government.go"], [("vote and ending", VK), ("effects", VK)],
 [("ballot", "current proposal, votes", "voting store"), ("history", "finished proposals", "voting store"), ("parameters", "of all modules", "params store")], AFTER,
 "runtime monitor: reference model of the ballot and of everything proposals can change, compared after every step", NOTE)

prop("V02", "Polls count every eligible answer once and decide by the quorum",
 "Members of the government start polls, one at a time. Everyone who meets the poll's requirement (none, a status, or being qualified as a validator) when answering can answer exactly once, and nobody else can; the counters agree with the answers given. The poll ends when its period is over, and only then: its result is kept in the history and announced, the decision being positive exactly if somebody agreed and the agreeing share reaches the quorum (there is none without a quorum), and nothing is left over for the next poll.",
 ["histories", "schedules"], "every sequence of polls with any requirement and quorum, answers, and changes of status and stake in between",
 "Eligibility depends on the network's state at the moment of the answer; leftovers only show in the next poll; the decision has to be exact at the quorum.",
 [VK], [("answers and ending", VK)],
 [("poll", "current poll, answers, counters", "voting store"), ("history", "finished polls", "voting store")], AFTER,
 "runtime monitor: reference model of polls compared after every step", NOTE)

prop("E01", "Only appointed signers report earnings, usage and rates",
 "Reports about who earns with VPN and storage, about used storage and VPN traffic, and about the token rate are accepted from the respective appointed signers only (as appointed at that moment) and record exactly what was reported, for exactly the accounts named, changing nothing else. A recorded earning counts for two days; until then it's kept, and it's never changed or prolonged by anything but another report.",
 H, "every report by anyone, whatever the order of appointments, dismissals, reports and accruals",
 "Authorization has to hold for every signer list governance can arrive at; tests call keepers directly, past the message handlers.",
 ["x/earning/keeper/msg_server.go", "x/earning/keeper/keeper.go", "x/profile/keeper/msg_server.go"], [("earning reports", "x/earning/keeper/msg_server.go"), ("usage and rate", "x/profile/keeper/msg_server.go")],
 [("earners", "timestamps by account", "earning store"), ("usage", "current values", "profile store")], AFTER,
 "runtime monitor: reference model predicts verdict and records of every report and every expiry", NOTE)

prop("A03", "A chain restarted from an exported state goes on as the exported one would",
 "At any point of any history (with validators left and no overdue tasks) the state can be exported, the export is a valid genesis, and a chain started from it has the same validator set and the same state, as far as it can be observed: accounts, balances, profiles, names, cards, the referral structure, delegations and requests, nodes and their records, earners, votes and polls, scheduled tasks, and parameters. From then on, given the same blocks, both chains answer every transaction with the same result and events, and stay the same. (Two limits, both known findings: the queue for lucky places is not exported, and those whose delegation was reconsidered as dust by a vote get treated anew.)",
 ["histories"], "an export at any height of any history, and any continuation of it",
 "Every module exports and imports its own part of a state that is linked all across; an omission shows only if the history has put something there, and often only long after the restart. Tests export a few hand-made states module by module.",
 ["app/export.go", "x/referral/keeper/genesis.go", "x/noding/genesis.go", "x/delegating/genesis.go", "x/profile/genesis.go", "x/voting/genesis.go", "x/schedule/genesis.go", "x/earning/genesis.go"],
 [("export", "app/export.go"), ("import", "x/*/genesis.go")],
 [("exported state", "genesis of every module", "app/export.go")], ["after ExportAppStateAndValidators and InitChain", "after every block of the chain started from it"],
 "runtime monitor: a twin chain started from the exported genesis is fed with the same blocks and compared after every step", NOTE)

prop("A05", "Nobody can act on behalf of others",
 "A transaction is executed only if everyone on whose behalf its messages act (sender, payer, voter, signer, ... as documented for each message) has signed exactly this transaction, for this chain, with their current sequence number; anything else (another key, a signature of another transaction, of another chain or account number, a changed memo, message or fee, a missing, broken or swapped signature, an expired or repeated transaction) is rejected without any effect, and not let into the pool. A transaction properly signed by exactly those is always let in, and advances their sequence numbers by one and nobody else's. (Known finding: the amino-json signing mode doesn't work.)",
 ["histories", "inputs"], "every message of every type, any forgery of a transaction containing it, in any state",
 "Who has to sign is told by every message type itself; keeper tests bypass signatures altogether, and nothing in the test suite delivers a signed transaction.",
 ["app/app.go", "x/bank/types/msgs.go", "x/delegating/types/msgs.go", "x/profile/types/msgs.go", "x/referral/types/msgs.go", "x/noding/types/msgs.go", "x/voting/types/msgs.go", "x/earning/types/msgs.go"],
 [("signatures", "app/app.go"), ("required signers", "x/*/types/msgs.go")],
 [("accounts", "sequence numbers", "auth store"), ("whole store", "every key and value", "all stores")], ["around every DeliverTx and CheckTx, proper or forged"],
 "runtime monitor: forged variants of every transaction are delivered next to proper ones; whole state compared, required signers per an independent table", NOTE)

prop("A06", "No transaction, whatever its contents, stops the network or corrupts its books",
 "Any transaction that can be put together (whatever strings, numbers, dates, addresses, lists, missing or nested values its messages carry, well formed or garbled) is either refused without any effect on the state (but for the sequence numbers of those who properly signed it) or executed as a whole; neither it nor anything it leaves behind (odd values of parameters accepted by the government included, software upgrades apart) ever crashes the node, stops block production later on, or makes the recorded total supply differ from what accounts hold.",
 ["histories", "inputs"], "every content of every message type at any point of any history, and whatever the network does afterwards",
 "What a message may contain is up to whoever sends it; tests send sensible messages only, and what an odd value does may show many blocks later, in a scheduled task nobody can refuse.",
 ["x/bank/types/msgs.go", "x/delegating/types/msgs.go", "x/profile/types/msgs.go", "x/referral/types/msgs.go", "x/noding/types/msgs.go", "x/voting/types/msgs.go", "x/voting/types/args.go", "x/earning/types/msgs.go", "x/schedule/keeper/keeper.go"],
 [("validation", "x/*/types/msgs.go"), ("later effects", "x/*/keeper")],
 [("whole store", "every key and value", "all stores"), ("supply", "recorded total against the sum of balances", "bank store")], AFTER,
 "runtime monitor: messages changed at random field by field, parameters changed to odd values by accepted proposals; crash detection, whole-state comparison and recomputed totals", NOTE)

prop("F01", "Fractions are exact, fees split without remainder",
 "Fractions behave as exact rational numbers: sums, differences, products, quotients, comparisons and signs are exact for any operands, conversion to integers truncates towards zero, operations leave their operands' values as they were, and every written form (text, JSON, YAML, protobuf, amino) reads back as the same value, while anything else is refused. The transaction fee is the share of the amount cut to the limit and then down to what can be split exactly, and its parts add up to it exactly. Sorted and unsorted lists of strings stay sets under adding, removing and merging.",
 ["inputs"], "every pair of fractions with 64 bit parts (and what comes of calculating with them), every allowed fee setting, lists of strings",
 "Tests try a dozen of values; exactness, sign and rounding mistakes show for particular operands only, and reach every payment of the network.",
 ["util/fraction.go", "util/fee.go", "util/lists.go"], [("arithmetic", "util/fraction.go"), ("fee", "util/fee.go")],
 [("value", "the rational number represented", "util/fraction.go")], ["after every operation"],
 "runtime oracle: random operands compared with independent exact rationals, forms read back, sets modelled", "Random operands only; big.Rat is trusted.")

prop("E02", "Events tell truly and completely what has happened",
 "Whoever only follows the events of blocks and transactions knows what has become of the network. Every change of coins held, delegated or being revoked (a share destroyed on revoking and coins burnt on their holder's own message apart) is announced with the exact amount and parties, and nothing else is; so is every change of somebody's status, activity, referrer, pending request to move, planned downgrade and paid period, every banishment and compression (which implies the loss of status), every jailing, offence, ban and loss of a validator's place, the limits after every purchase or waiver of storage, IM storage or VPN, and every proposal, vote and result, with names as given, special characters included. A transaction's messages of the bank, profile, referral and voting modules are tagged in order. (Not judged: those who join or come back, and what an amnesty wipes.)",
 ["histories", "schedules"], "every transaction, start and end of block of every history",
 "Clients, explorers and accounting see the network through its events alone; an event missing, doubled, or announcing the wrong party or amount breaks no state and no test.",
 ["util/msg_server.go", "x/referral/keeper/bunch_updater.go", "x/referral/keeper/keeper.go", "x/profile/keeper/subscription.go", "x/delegating/keeper/keeper.go", "x/noding/keeper/keeper.go", "x/voting/keeper/keeper.go", "x/bank/internal/keeper/send.go"],
 [("encoding", "util/msg_server.go"), ("emission", "x/*/keeper")],
 [("events", "attributes", "ABCI results"), ("state", "balances, referral, profile, noding and voting records", "all stores")], AFTER,
 "runtime monitor: a replica kept from events only is compared with the state after every step", NOTE)

prop("C01", "The command line builds the transaction its arguments describe",
 "Every transaction command of the artrd program, under each of its names, turns its arguments (addresses or key names, amounts, shares, dates, lists, options, statuses, answers) and flags (fees, gas, memo, timeout) into exactly the transaction they describe, of the documented message type, properly signed by the account named. Arguments that aren't what the usage asks for, or that make an invalid message, are refused: nothing is built or sent. Nothing is sent without the user's confirmation.",
 ["inputs"], "every command with every combination of well formed and malformed arguments, offline and sending",
 "No test runs the commands; a swapped, dropped or half read argument makes a perfectly valid transaction that does something else with the user's money.",
 ["x/bank/client/cli/tx.go", "x/delegating/client/cli/tx.go", "x/earning/client/cli/tx.go", "x/noding/client/cli/tx.go", "x/profile/client/cli/tx.go", "x/referral/client/cli/tx.go", "x/voting/client/cli/tx.go", "cmd/artrd/main.go", "util/cli.go"],
 [("commands", "x/*/client/cli/tx.go")], [("transaction", "what is printed or broadcast", "output of the program, RPC calls it makes")], ["after every run of the program"],
 "runtime oracle: the real program run against a recording node stand-in; what it builds, signs and sends compared with what its arguments say", "The harness's own table of commands; keyring backend 'test'.")

prop("C02", "The command line shows what the node answers",
 "Every query command of the artrd program, under each of its names, asks the node exactly what its arguments and flags say, for the present or the given past height, and shows the answer (as JSON or YAML) unaltered. Malformed arguments are refused, and errors the node answers with are reported as failures.",
 ["inputs", "histories"], "every query command with every combination of arguments, at every height",
 "No test runs the commands; a query with an ignored argument still answers something plausible.",
 ["x/bank/client/cli/query.go", "x/delegating/client/cli/query.go", "x/earning/client/cli/query.go", "x/noding/client/cli/query.go", "x/profile/client/cli/query.go", "x/referral/client/cli/query.go", "x/schedule/client/cli/query.go", "x/voting/client/cli/query.go", "util/cli.go"],
 [("commands", "x/*/client/cli/query.go")], [("answers", "what is printed", "output of the program")], ["after every run of the program"],
 "runtime oracle: the real program run against a node with a generated history; its output compared with the node's direct answers", "What the node answers itself is judged by Q01.")

prop("C03", "The node program keeps the chain and heeds its operator",
 "The artrd program, run as a node over its database on disk, executes the blocks it is given exactly as the application does (the same results, events, validator updates and application hashes), however often it is stopped, killed at any step of a block (while it commits included) and started again, and with whatever settings: after a start it is at the last committed block with that block's hash (or, when killed while committing, perhaps at the one before), and goes on from there. It does as its operator says, by app.toml, flags or environment: old heights are kept and dropped as the pruning settings (default, nothing, everything, custom) say and those kept are answered for truly, transactions offered below the minimum gas prices are refused and others aren't, and it halts once the height or time to halt at is committed and not before. The state it exports, latest or of any kept height, is that height's state with the next height to start at, and a valid genesis if anybody validates.",
 ["histories", "crash points", "inputs"], "every history, every point the process may die at, every combination of settings and every way of giving them",
 "No test runs the program or keeps anything on disk; wiring of settings, database, and heights only matters when an operator restarts, prunes, halts or exports.",
 ["cmd/artrd/main.go", "app/app.go", "app/export.go"],
 [("wiring", "cmd/artrd/main.go"), ("application", "app/app.go"), ("export", "app/export.go")],
 [("responses", "to every ABCI request", "socket of the program"), ("chain", "height and application hash after a start", "database on disk"), ("past states", "answers for older heights", "database on disk"), ("genesis", "the export", "output of the program")], ["after every request", "after every start", "after the end"],
 "runtime monitor: the real program driven over its ABCI socket as a consensus engine would, killed and restarted, compared step by step with the application run in process", "The consensus engine is the harness. Not killed while committing the very first block, nor with pruning that keeps only the latest state (the SDK's database isn't crash safe there). The application itself is judged by the other properties.")

prop("C04", "The HTTP interface of a node answers what the node answers",
 "A node's HTTP (REST) interface answers every query under its published address: what it says, as JSON, is exactly the node's answer about the last committed state or that of the past height named in the request, reads back as that answer, and tells the height it's about. Values that aren't of the type asked for are refused, the node's errors are reported as errors, with the node's message, and there's nothing under other addresses. Transactions broadcast through it reach the network unaltered, and simulations report what the node itself expects, changing nothing.",
 ["inputs", "histories"], "every published address with every combination of well formed and malformed values, at any time and for any height, every kind of transaction",
 "No test starts the HTTP interface; wallets and explorers talk to nothing else, and wrong routing, values read or written wrongly or not at all show there only.",
 ["proto/artery", "x/bank/module.go", "x/delegating/module.go", "x/earning/module.go", "x/noding/module.go", "x/profile/module.go", "x/referral/module.go", "x/schedule/module.go", "x/voting/module.go", "app/app.go", "util/fraction.go"],
 [("routes", "x/*/module.go"), ("services", "app/app.go")], [("answers", "status, headers and body", "HTTP interface"), ("transactions", "what is passed on", "calls of the node's RPC")], ["after every request"],
 "runtime oracle: the node's HTTP interface, set up as a starting node does, asked before, during and after generated histories; compared with the node's direct answers", "What the node answers itself is judged by Q01. Requests go to the router, not through a socket. Addresses with a slash in a value or with empty values can't be made.")
