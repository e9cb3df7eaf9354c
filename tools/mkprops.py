#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

K="x/dex/keeper/"
prop("C01","Coins are conserved and every escrow is fully backed",
 "At every block boundary each market's escrow account holds exactly the unspent offer coins of that market's live orders and the shared request escrow holds exactly the coins of pending deposits and withdrawals (plus only what was sent there directly). Trading, depositing and withdrawing move coins but never create or destroy them: the total supply of every non-pool coin is unchanged, and a pool coin's supply changes only by the amounts of pool creations, successful deposits and successful withdrawals.",
 ["histories","inputs","schedules"],"every history of accepted and rejected transactions, every batch boundary, every mix of partial fills, cancels, expiries, deposits and withdrawals",
 "Unit tests check balances after a handful of scripted trades; the stored invariants are only evaluated in a few fixed scenarios, and only as a lower bound (escrow >= owed).",
 [K+"swap.go",K+"pool.go",K+"batch.go","x/dex/amm/match.go","x/dex/types/util.go",K+"invariants.go"],
 [("escrow on placement, refund on finish",K+"swap.go placeOrder/FinishOrder"),("bulk settlement",K+"swap.go ApplyMatchResult"),("mint/burn of pool coins",K+"pool.go ExecuteDepositRequest/ExecuteWithdrawRequest")],
 ["bank balances and supply at block start, before and after the end-of-block batch","order and request records"],
 [("RemainingOfferCoin","unspent part of an order's offer","Order record"),("pair escrow / global escrow","module-owned accounts","bank")])
prop("C02","No order trades beyond its limit price, amount or offer",
 "A buy order never pays more than its limit price per unit received and a sell order never receives less than its limit price per unit sold (beyond one indivisible quote unit of rounding per fill), and neither ever trades more than its open amount nor spends more than it put in. What an order record says was paid, received and remains always adds up, and exactly those coins reach the owner's account.",
 ["histories","inputs"],"every order of every kind, in every batch it takes part in, against any mix of users' orders and pools, any prices, sizes and fill sequences",
 "Existing tests assert fills of hand-made books with a few orders at friendly prices; multi-batch partial fills at awkward prices with several pools are not sampled.",
 ["x/dex/amm/match.go",K+"swap.go","x/dex/types/order.go"],
 [("FillOrder / MatchableAmount","x/dex/amm/match.go, x/dex/amm/util.go"),("ApplyMatchResult",K+"swap.go"),("NewUserOrder","x/dex/types/order.go")],
 ["order records before/after each batch","owner balances","order match events"])
prop("C03","Batch matching is fair and complete",
 "In a batch, a better-priced order on a side is always filled before a worse-priced order on that side gets anything, and at equal price orders from earlier batches are filled before later ones; orders with the same price and batch share in proportion to their size up to rounding. After the batch no pair of remaining executable orders (users', or pools' as quoted for the batch) still crosses; executable means worth at least one indivisible quote unit at a tick price the batch may run at.",
 ["histories","inputs"],"every order book reachable by any sequence of orders, cancels, pool operations and previous batches",
 "The matching tests use a few fixed books; fairness is relational over all pairs of orders in all books.",
 ["x/dex/amm/match.go","x/dex/amm/orderbook.go","x/dex/amm/util.go",K+"swap.go"],
 [("order book ordering","x/dex/amm/orderbook.go"),("batch-id grouping and proportional distribution","x/dex/amm/match.go DistributeOrderAmountToTick")],
 ["order records before/after each batch"])
prop("C04","Batch prices stay in bounds and only rounding dust leaves the traders",
 "When a market has a last price, every trade of the next batch executes within the configured percentage of it (rounded to a tick), the recorded last price changes only when something traded and then to a price at which trades happened, a tick (of the precision in force when the orders were placed), and without crossing orders nothing trades. Buyers' total payment equals sellers' total receipts plus a non-negative remainder smaller than one indivisible quote unit per fill, which goes to the dust collector and nowhere else.",
 ["histories","inputs","configurations"],"every batch of every market, any price limit ratio, any tick precision",
 "Tests look at a few prices; the bounds are claims over all books and all price histories.",
 ["x/dex/amm/match.go",K+"swap.go","x/dex/types/util.go","x/dex/amm/tick.go"],
 [("PriceLimits","x/dex/types/util.go"),("FindMatchPrice / Match","x/dex/amm/match.go"),("dust to collector",K+"swap.go ApplyMatchResult")],
 ["pair records","match events","dust collector balance"])
prop("C05","Every order ends exactly once and is refunded exactly its unspent coins",
 "An accepted order stays live until exactly one of: completely filled, cancelled, or expired (its lifetime has passed at a batch, or what is left is too small to trade); it takes part in at least one batch, is never matched again after it ended, and never outlives the first batch at or after its expiry time. When it ends, exactly its unspent offer coins return to its owner, once, and its record disappears at the start of the next block.",
 ["histories","schedules"],"every order, any lifetimes, batch sizes, block-time jumps, cancels racing with batches, partial fills before the end",
 "Tests sample a few lifetimes with a fixed 5-second block; boundary times, skipped batches and clock jumps are not explored.",
 [K+"swap.go",K+"batch.go","x/dex/types/request.go","x/dex/module/abci.go"],
 [("FinishOrder",K+"swap.go"),("ExecuteRequests expiry",K+"batch.go"),("DeleteOutdatedRequests",K+"batch.go")],
 ["order records at each stage of each block","order result events","owner balances"])
prop("C06","Only the owner can cancel, and only as the rules allow",
 "A cancellation takes effect only for a live order of the account that signed it and only after the batch the order was placed in has passed; a cancel-all ends exactly the signer's live, earlier-batch orders in the named markets (all markets if none named) and no others. A rejected cancellation changes nothing.",
 ["histories","schedules","inputs"],"every interleaving of placements, batches, cancels, cancel-alls and expiries by several accounts over several markets",
 "Tests cancel a few orders of one or two accounts; scope across many accounts, markets and id ranges is not sampled.",
 [K+"swap.go",K+"store.go","x/dex/types/keys.go"],
 [("ValidateMsgCancelOrder / CancelAllOrders",K+"swap.go"),("orders-by-owner index",K+"store.go, x/dex/types/keys.go")],
 ["state before/after each cancel transaction"])
prop("C07","Orders are admitted exactly by the published rules and charged exactly",
 "A limit or market-making order is accepted only inside the current price band, a market order only when a last price exists, and any order only if it names the market's coins, is big enough, lives no longer than allowed and is covered by the owner's spendable coins; an order meeting all rules is accepted. An accepted order's price is the limit rounded to a tick in the owner's favour (market orders: the band edge), exactly the coins needed at that price are taken into escrow, and the rest never leaves the owner.",
 ["inputs","histories","configurations"],"every order message, any market state, tick precision, price-limit ratio and balance",
 "Table tests cover a few accepted and rejected messages; the boundary prices and sizes depend on state (last price, parameters) that tests fix.",
 [K+"swap.go","x/dex/types/util.go","x/dex/amm/tick.go","x/dex/types/msgs.go"],
 [("placeOrder",K+"swap.go")],["state before/after each order transaction, result codes"])
prop("C08","Market-making order counts are exact and the limit holds",
 "For every account and market the reported number of market-making orders always equals how many live market-making orders it has there, whether they end by fill, cancel, cancel-all, expiry or restart from export. A market-making order is rejected exactly when that number has reached the configured maximum.",
 ["histories","configurations"],"every sequence of market-making orders and endings, any maximum, parameter changes in between",
 "Tests reach the limit once; drift between counter and orders appears only over long mixed histories.",
 [K+"swap.go",K+"store.go",K+"invariants.go",K+"genesis.go"],
 [("NumMMOrders counter",K+"swap.go MMOrder/FinishOrder")],["counter query vs order records after every transaction and batch"])
prop("C09","Deposits execute exactly once at a fair price, or refund in full",
 "Every accepted deposit is executed exactly once at the next batch: the depositor gets pool coins no greater than the deposit's share of both reserves (never diluting existing holders), the coins taken are no more than offered and only what that share needs, and everything else is refunded at once. If it cannot be executed (pool disabled or emptied, or it would mint nothing) the whole deposit is refunded and nothing else changes.",
 ["histories","inputs"],"every deposit into basic or ranged pools at any reserve ratio and size, alone or with other deposits, withdrawals and trades in the same batch",
 "Tests cover a few sizes; fairness is an inequality over all reserves, supplies and amounts, and over several requests in one batch.",
 [K+"pool.go","x/dex/amm/pool.go",K+"batch.go"],
 [("ExecuteDepositRequest/FinishDepositRequest",K+"pool.go"),("Deposit","x/dex/amm/pool.go")],["request records, reserves, supplies, balances around each batch"])
prop("C10","Withdrawals execute exactly once and pay exactly the fair share",
 "Every accepted withdrawal is executed exactly once at the next batch: the pool coins are burned and the owner receives the proportional share of both reserves less the withdrawal fee, rounded down, never more; redeeming the whole supply pays out all reserves and closes the pool. If nothing can be paid the pool coins are returned in full.",
 ["histories","inputs","configurations"],"every withdrawal amount, pool kind, reserve size and fee rate, alone or with other requests in the same batch",
 "Tests cover a few amounts with a zero or single fee rate and mostly one request per batch.",
 [K+"pool.go","x/dex/amm/pool.go",K+"batch.go"],
 [("ExecuteWithdrawRequest/FinishWithdrawRequest",K+"pool.go"),("Withdraw","x/dex/amm/pool.go")],["request records, reserves, supplies, balances around each batch"])
prop("C11","Trading never drains value from a liquidity pool",
 "A batch of trades never lowers a pool's invariant: for a basic pool the product of its reserves (up to one indivisible unit per fill), for a ranged pool the product of its virtual reserves, so traders cannot take value from liquidity providers by any order sequence. A pool trades on one side only per batch, never spends coins it does not hold, and a ranged pool never sells the base coin below its minimum price or buys it above its maximum.",
 ["histories","inputs"],"every sequence of order batches against any set of basic and ranged pools, tiny to huge reserves",
 "Tests check single swaps against one pool; value leaks accumulate over many fills, ticks and pools.",
 ["x/dex/amm/pool.go","x/dex/amm/match.go",K+"swap.go","x/dex/types/pool.go"],
 [("pool order generation","x/dex/amm/pool.go PoolOrders"),("settlement",K+"swap.go ApplyMatchResult")],["pool reserves around each batch"])
prop("C12","Pools are created, limited and closed by the rules",
 "A market never has more than one active basic pool nor accepts a new pool once it has the configured maximum of active pools; creating a pool takes exactly the deposit it needs plus the creation fee, mints the initial pool coins to the creator, and starts at the requested price inside its range. A pool whose coins or supply are gone is disabled, stays disabled for ever, and from then on accepts no requests and takes part in no trade.",
 ["histories","inputs","configurations"],"every sequence of pool creations, withdrawals to zero, re-creations and parameter changes in any number of markets",
 "Tests create a few pools with default limits and friendly prices.",
 [K+"pool.go","x/dex/amm/pool.go",K+"swap.go"],
 [("ValidateMsgCreatePool/ValidateMsgCreateRangedPool/MarkPoolAsDisabled",K+"pool.go"),("CreateRangedPool","x/dex/amm/pool.go")],["pool records, balances, supply around each transaction and batch"])
prop("C13","Markets and identifiers are unique and never reused",
 "There is at most one market per ordered coin pair, creating one takes exactly the creation fee, and market, pool, order and request identifiers are handed out consecutively and never reused, also after records are deleted, blocks are replayed or the chain is restarted from an export. Every market and pool owns its own escrow or reserve account, distinct from all others, and an object's identity data never changes once created.",
 ["histories","schedules"],"every sequence of creations and deletions, failed transactions in between, restarts and re-imports",
 "Tests create a handful of objects from an empty chain and never cross identifier-width boundaries.",
 [K+"pair.go",K+"pool.go",K+"store.go","x/dex/types/keys.go","x/dex/types/pair.go","x/dex/types/pool.go"],
 [("getNext*IdWithUpdate",K+"pair.go, "+K+"pool.go"),("pair index",K+"store.go")],["records at each transaction"])
prop("C14","Batches run exactly on schedule and leave nothing pending",
 "Orders, deposits and withdrawals only take effect in the end-of-block batch of every N-th block (N the configured batch size): between batches nothing of them changes except by the owners' own transactions, and after a batch no deposit or withdrawal is left unexecuted and every live order has been considered. Finished records are removed at the start of the following block, unfinished ones never.",
 ["schedules","configurations","histories"],"every batch size, block-time pattern, request mix and parameter change",
 "Tests run batch size one (plus one small scenario), so requests waiting across blocks are hardly exercised.",
 ["x/dex/module/abci.go",K+"batch.go"],
 [("BeginBlocker/EndBlocker","x/dex/module/abci.go"),("ExecuteRequests/DeleteOutdatedRequests",K+"batch.go")],["whole market state at start of block, around each transaction and around the batch"])
prop("C15","All nodes compute the same state from the same blocks",
 "Nodes that execute the same blocks reach the same application hash and the same transaction results, whatever each of them did in between: which transactions it checked, which queries and simulations it served, its caches, pruning, restarts, map iteration order or local clock. Checking, simulating or querying never changes what a later block does.",
 ["schedules","histories","configurations","fault_sequences"],"every block sequence and every pair of node-local histories",
 "The one determinism test in the repository is not reliable and compares runs of a single node without restarts, checks or queries in between.",
 [K+"swap.go",K+"batch.go","x/dex/amm/match.go","x/dex/types/util.go","app/app.go"],
 [("ordered iteration, no wall clock or randomness in execution",K+"*.go, x/dex/amm/*.go"),("store-backed state only",K+"store.go")],["application hash and results of every block on every node"])
prop("C16","A crash at any point loses no committed block and never corrupts state",
 "If a node is killed at any moment (including in the middle of committing a block, with any not-yet-synced writes lost, or by a disk error) and restarted, it comes up at its last committed or the preceding height, and re-executing the stored blocks brings it to exactly the application hash and results of a node that never crashed. Rolling a node back and replaying does the same.",
 ["crash_points","fault_sequences","schedules"],"every storage write of every block as a crash point, any subset of un-synced trailing writes lost, repeated crashes, rollbacks",
 "No test restarts the application from a store, let alone from one interrupted mid-commit.",
 ["app/app.go",K+"store.go",K+"keeper.go","x/dex/module/abci.go"],
 [("all market state lives in the versioned store",K+"store.go"),("commit multi-store","app/app.go")],["application hash after restart and replay"])
prop("C17","Transactions are all-or-nothing",
 "A transaction that fails for any reason - an invalid message after valid ones, missing funds, or running out of gas at any point - leaves markets, pools, orders, requests and everyone's coins exactly as they were, except for the payer's fee and sequence number. A successful multi-message transaction has exactly the effect of its messages in order.",
 ["inputs","fault_sequences","histories"],"every combination of messages, every gas limit from zero to sufficient, failures at any message position",
 "Keeper tests call handlers directly with unlimited gas, outside any transaction.",
 [K+"msg_server.go",K+"swap.go",K+"pool.go",K+"pair.go","app/app.go"],
 [("per-transaction cached store","app/app.go (baseapp)"),("handlers return errors",K+"msg_server.go")],["whole state before/after each delivered transaction"])
prop("C18","Every signed transaction takes effect at most once and only if authorised",
 "However often and wherever a transaction is delivered (duplicated, reordered, gossiped late, or included twice), it takes effect at most once and only for the account whose signature it carries; transactions with a wrong signature, chain id, or sequence have no effect at all. No message moves the coins or orders of an account that did not sign for it or delegate that right.",
 ["schedules","fault_sequences","inputs"],"every delivery schedule with loss, duplication, reordering, and forged or replayed transactions",
 "The tests never sign or deliver a transaction through the application.",
 ["x/dex/types/msgs.go","proto/defund/dex/tx.proto",K+"msg_server.go","app/app_config.go"],
 [("signer annotations","proto/defund/dex/tx.proto"),("ante handlers","app/app_config.go")],["account sequences, balances and orders per delivered transaction"])
prop("C19","No transaction can halt the chain and pending work always progresses",
 "Whatever transactions users send, every later block is still produced: begin- and end-of-block processing never fails, so one user cannot stop the market for everyone. After faults stop, every deposit, withdrawal and order submitted is processed within one batch.",
 ["inputs","histories","fault_sequences"],"every history of valid transactions including extreme prices, amounts, ratios, one-sided and emptied pools",
 "A halting input is one the unit tests did not think of; they run friendly magnitudes.",
 [K+"batch.go",K+"swap.go",K+"pool.go","x/dex/amm/pool.go","x/dex/amm/match.go","x/dex/module/abci.go"],
 [("ExecuteRequests panics on any error",K+"batch.go"),("overflow guards","types/utils.go SafeMath")],["success of every block execution"])
prop("C20","Queries report exactly the committed state",
 "Every query answer agrees with the committed state at the queried height: single-object, listing, filtered, by-owner, by-coin and by-reserve-account queries show the same objects, page by page without gaps or repeats, and the order-book view shows exactly the live orders' open amounts when no pool is present. Past heights keep answering as they did when they were committed.",
 ["histories","inputs","schedules"],"every reachable state, every filter and page size, queries issued at any moment including while a block is being executed",
 "Query tests use a small hand-made state and large pages, always on the latest uncommitted context.",
 [K+"grpc_query.go",K+"store.go","x/dex/types/keys.go","x/dex/types/orderbook.go"],
 [("secondary indexes",K+"store.go"),("filtered pagination",K+"grpc_query.go")],["ABCI query responses vs raw committed store"])
prop("C21","Reads, checks and simulations are isolated from execution",
 "A query, transaction check or simulation served at any moment - between blocks, between transactions or between execution and commit - sees only committed state and leaves no trace: the block in progress and all later blocks have the outcome they would have had without it.",
 ["schedules","histories"],"every interleaving of reads, checks and simulations with block execution",
 "No test serves queries or checks while a block is executing.",
 [K+"keeper.go",K+"grpc_query.go","app/app.go"],
 [("no in-memory keeper state",K+"keeper.go"),("separate check/query stores","app/app.go")],["answers during execution vs committed snapshot; application hash with and without reads"])
prop("C22","Export and re-import preserves everything",
 "Exporting the chain at any height and starting a new chain from that file preserves all markets, last prices, pools, orders, pending requests, counters, identifiers, parameters and balances. The restarted chain then processes the same transactions with the same outcomes as the original would have.",
 ["histories","crash_points"],"every reachable state at every height as export point, including pending requests, finished-but-not-removed records and disabled pools",
 "The genesis tests round-trip hand-made or small keeper states, not the application's own export.",
 ["x/dex/module/genesis.go",K+"genesis.go","x/dex/types/genesis.go","app/export.go"],
 [("InitGenesis/ExportGenesis",K+"genesis.go, x/dex/module/genesis.go"),("genesis validation","x/dex/types/genesis.go")],["exported documents, state and outcomes of the restarted chain"])
prop("C23","Parameters change only by governance, completely and at once",
 "Market parameters change only when a passed governance proposal executes an update, which then takes effect as a whole from the next use; any other account's attempt is rejected without effect. An update with invalid values is rejected and changes nothing. A proposal ends exactly when its time is over, passes exactly when the stake voted for it, and its deposits go back to the depositors, or are burned after a veto; none of this ever stops the chain.",
 ["histories","inputs","configurations"],"every proposed parameter set (valid or not), every sender, vote, deposit and expiry, any moment relative to batches",
 "Tests set parameters directly in the keeper and never go through governance.",
 [K+"msg_server.go",K+"keeper.go",K+"params.go","x/dex/types/params.go","x/dex/module/module.go","app/app_config.go"],
 [("authority check",K+"msg_server.go UpdateParams"),("parameter validation","x/dex/types/params.go"),("governance module, its account's permissions, module order","app/app_config.go")],["parameters before/after each transaction and block","proposals, deposits, votes, balances and supply at each block"])
prop("C24","Fees and surplus go exactly where configured",
 "Creation fees are taken exactly once per created market or pool, in exactly the configured coins, and arrive whole at the configured fee collector; the extra gas for orders, deposits and withdrawals is charged; rounding surplus arrives whole at the configured dust collector. No other account gains from a fee, and failed creations cost no creation fee.",
 ["histories","configurations"],"every creation attempt under every fee and collector configuration, including several fee coins, zero fees and mid-history parameter changes",
 "Tests use the default fee coin and collectors only.",
 [K+"pair.go",K+"pool.go",K+"params.go",K+"swap.go"],
 [("creation fees",K+"pair.go, "+K+"pool.go"),("ConsumeGas",K+"swap.go, "+K+"pool.go")],["collector and creator balances around each transaction; gas used"])
prop("C25","Registered safety invariants watch the markets",
 "The chain's invariant-checking facility includes the market module's own invariants, and all of them hold at every block of every honest history, so an operator's invariant check never halts a healthy chain and does look at the markets.",
 ["histories"],"every reachable state",
 "Tests call the invariant functions directly on small states; whether the running application registers them is not tested.",
 [K+"invariants.go","x/dex/module/module.go","app/app.go"],
 [("RegisterInvariants","x/dex/module/module.go, "+K+"invariants.go")],["invariant evaluation through the running application"])
prop("C26","Interchain transfers conserve coins and take effect exactly once",
 "Channels for token transfers can be opened, with and without relayer fees, and only by a complete, genuine handshake. A transfer takes effect exactly once: its packet is delivered, refused and returned, or timed out and returned, whatever relayers lose, repeat, delay, reorder or forge. Every voucher in circulation is backed by coins in the sending channel's escrow, promised relayer fees are held until paid to the relayers or refunded, nothing is delivered to blocked module accounts, and all this survives restarts and export and re-import.",
 ["schedules","histories","crash_points","inputs"],"every order, repetition, loss and forgery of handshake steps, packets, acknowledgements and timeouts, every denomination (native, pool coins, vouchers, vouchers on markets), every timeout, interleaved with trading, restarts and exports",
 "No test of the repository opens a channel or moves a packet through the assembled application; the wiring (routes, middleware, capabilities, account permissions, module order) only shows in such histories.",
 ["app/ibc.go","app/app_config.go","app/app.go"],
 [("transfer and relayer-fee stack, routes, scoped capabilities","app/ibc.go registerIBCModules"),("module account permissions, blocked accounts, module order","app/app_config.go")],["bank balances and supply, channel, packet, fee and trace records after every transaction"])
prop("C27","Stake is conserved and rewarded, and validators answer for misbehaviour",
 "Coins delegated, moved between validators or withdrawn are conserved and come back, after the waiting time and never before, to whoever delegated them; only the stakes decide who validates. Fees and new coins reach delegators and validators in proportion; each gets what is due, once. Absence and double signing cost the offender's stake what the rules say, and nobody else's. All this survives restarts and exports, also one for a restart at height zero, with or without a list of allowed validators.",
 ["schedules","histories","crash_points","inputs"],"every sequence of delegations, redelegations, withdrawals, validator creations, absences, double signing and evidence ages, time jumps, interleaved with trading in the staked coin, restarts, exports and zero-height exports",
 "No test of the repository bonds a second validator, slashes one, or runs the zero-height export; the wiring (module order, account permissions, hooks) and the export code only show in long histories.",
 ["app/export.go","app/app_config.go","app/app.go"],
 [("export for a restart at height zero","app/export.go prepForZeroHeightGenesis"),("module order, hooks, account permissions","app/app_config.go"),("keepers and modules wired","app/app.go New")],["validators, delegations, unbondings, rewards, balances and validator-set updates after every transaction and block; exported genesis and chains started from it"])
# pure-function properties: no schedule, clock, fault or history in them
prop("P01","Tick arithmetic is a consistent order isomorphism",
 "Rounding a price down or up to a tick gives the nearest tick not above or not below it, tick and index conversions are inverse to each other, and neighbouring ticks are adjacent, for every representable price and precision.",
 ["inputs"],"all prices and tick precisions","Tests sample some prices.",["x/dex/amm/tick.go"],[("tick functions","x/dex/amm/tick.go")],["return values"])
prop("P02","Derived addresses never collide with each other or with user accounts",
 "Escrow, reserve and collector addresses derived for different markets, pools and purposes are pairwise different and cannot be produced by any user key.",
 ["inputs"],"all identifiers","Hash-collision claim over all identifiers.",["x/dex/types/util.go","x/dex/types/pool.go","x/dex/types/pair.go","types/utils.go"],[("DeriveAddress","x/dex/types/params.go, types")],["derived addresses"])
prop("P03","Wire and storage encodings round-trip",
 "Every message, record and key decodes to exactly what was encoded, and keys of different objects never coincide or shadow one another's prefixes.",
 ["inputs"],"all values","Tests sample keys.",["x/dex/types/keys.go","x/dex/types/*.pb.go"],[("key builders and parsers","x/dex/types/keys.go")],["bytes"])
prop("P04","Command-line input parsing matches the message semantics",
 "Command-line arguments and flags for transactions and queries are parsed into exactly the message or query they describe, or rejected.",
 ["inputs"],"all argument strings","No CLI tests exist for parsing; the command package cannot be compiled at this commit.",["x/dex/client/cli/tx.go","x/dex/client/cli/query.go","x/dex/client/cli/flags.go"],[("NewXCmd","x/dex/client/cli/tx.go")],["parsed message"])
prop("P05","Stateless message validation accepts exactly well-formed messages",
 "Stateless validation accepts every well-formed message and rejects malformed addresses, coins, amounts, prices, lifetimes and identifiers.",
 ["inputs"],"all messages","Table tests sample a few malformations.",["x/dex/types/msgs.go"],[("ValidateBasic","x/dex/types/msgs.go")],["validation result"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,p["title"]
print(len(P))
