AM = "x/dex/amm/"
prop("C01", "The price grid is exact at every price",
     "At every tick precision, rounding a price down gives the greatest grid price not above it, rounding up the least grid price not below it, and the next and previous grid prices are the adjacent ones, also across powers of ten. Numbering the grid prices is a bijection that keeps their order, and rounding to the nearest follows the banker's rule between the two neighbours.",
     "every price between the lowest and the highest grid price and every tick precision",
     "the tests try a table of prices; the grid spacing changes with every power of ten and rounding depends on every digit, over some 2^300 prices",
     [AM+"tick.go", AM+"util.go"], [("PriceToDownTick, PriceToUpTick, UpTick, DownTick, TickToIndex, TickFromIndex, RoundPrice", AM+"tick.go")],
     hs=["hamm/tick", "hamm/tickindex", "hamm/tickends"], q=40, observe=["the functions' results"])
prop("C02", "Every filled order gets its limit price or better and stays in its budget",
     "When a batch of orders is matched, no order is filled by more than its amount, a buy order never pays more per unit of base coin than its limit price nor more than the quote coins offered, and a sell order never receives less per unit than its limit price, up to one smallest quote unit of rounding per fill. An order that is not matched pays and receives nothing, and no sell order gives coins for nothing while the others that share its match could have taken them.",
     "every set of orders (prices, amounts, batches), every previous price and every tick precision",
     "tests use a dozen concrete books; fills are computed by chained proportional divisions over 128-bit amounts with rounding that depends on all orders together",
     [AM+"match.go", AM+"order.go", AM+"util.go"], [("FillOrder, DistributeOrderAmountToOrders, OrderBook.Match", AM+"match.go")],
     hs=["hamm/batches3", "hamm/batches3all!", "hamm/batches4!", "hamm/fill", "hamm/match11", "hamm/match11low", "hamm/first11", "hamm/first11low", "hamm/dist2", "hamm/dist3", "hamm/match21tiny", "hamm/match12tiny", "hamm/match22tiny", "hamm/first21b", "hamm/match12b", "hamm/match21", "hamm/match22!", "hamm/match31!", "hamm/match13!", "hamm/match22far!", "hamm/first22!", "hamm/match32!"], q=70)
prop("C03", "Matching conserves the base coin and never creates quote coins",
     "In every match of an order book the base coins sold equal the base coins bought, the quote coins paid are never less than the quote coins received, and the reported difference between them is exactly what is left over. Distributing an amount over orders at one price hands out exactly that amount unless a remainder worth less than one quote unit is dropped on both sides.",
     "every set of orders (prices, amounts, batches), every previous price and every tick precision",
     "an imbalance of one unit needs particular remainders in the pro-rata divisions, which the tested books do not have; it was in fact present (see known findings)",
     [AM+"match.go", AM+"orderbook.go"], [("DistributeOrderAmountToTick, DistributeOrderAmountToOrders, OrderBook.Match, InstantMatch", AM+"match.go")],
     hs=["hamm/batches3", "hamm/batches3all!", "hamm/batches4!", "hamm/fill", "hamm/match11", "hamm/match11low", "hamm/first11", "hamm/first11low", "hamm/dist2", "hamm/dist3", "hamm/match21tiny", "hamm/match12tiny", "hamm/match22tiny", "hamm/first12b", "hamm/match22", "hamm/dist4!", "hamm/match21low!", "hamm/match12low!", "hamm/match22low!", "hamm/match13low!", "hamm/match32!", "hamm/first22!"], q=70)
prop("C04", "Better prices and earlier batches are filled first, equal orders fairly",
     "An order with a strictly better price, or at the same price from an earlier batch, is filled completely before a worse one gets anything beyond what rounding leaves over, and orders at one price and batch share what there is in proportion to their amounts, so that a larger one is never filled by less than a smaller one. This holds whenever a unit of base coin is worth at least one quote unit.",
     "every set of orders on each side (prices, amounts, batches)",
     "tests check a few books with round numbers; priority interacts with partial matching and remainders",
     [AM+"match.go", AM+"orderbook.go"], [("GroupOrdersByBatchID, SortOrders, DistributeOrderAmountToTick", AM+"match.go")],
     hs=["happ/batchfair", "hamm/batches3", "hamm/batches3all!", "hamm/batches4!", "hamm/match11", "hamm/first11", "hamm/dist2", "hamm/dist3", "hamm/first12b", "hamm/first21b", "hamm/match12b", "hamm/match21b", "hamm/match22!", "hamm/match31!", "hamm/match13!", "hamm/dist4!", "hamm/first22!"], q=100)
prop("C05", "Matching uses the right prices and leaves no crossing orders behind",
     "The price rises above the previous one only if the demand above it exceeds the supply at or below it, and falls only if the supply below exceeds the demand at or above; otherwise trades happen at the previous price. It lies within the crossing orders' prices, and after a match no buy order with open amount is left at a price at or above a sell order with open amount, except for remainders worth less than one quote unit. Orders that do not cross are never matched.",
     "every set of orders and every previous price",
     "the direction and the stopping tick depend on the sums of the amounts on both sides relative to the previous price, tests sample a few",
     [AM+"match.go", AM+"orderbook.go"], [("OrderBook.PriceDirection, OrderBook.Match", AM+"match.go")],
     hs=["hamm/batches3", "hamm/batches3all!", "hamm/batches4!", "hamm/match11", "hamm/first11", "hamm/first12", "hamm/first21", "hamm/match12b", "hamm/match12", "hamm/match21", "hamm/match22!", "hamm/first22!"], q=70)

prop("C06", "Pool orders stay on the pool's curve, inside its reserves and on the grid",
     "The orders a liquidity pool places never cost more quote coins or sell more base coins than its reserves, buy only below and sell only above the pool price at grid prices inside the requested window, and each amount stops at the point where the pool's own price reaches the order's price. Within that limit a pool offers everything its curve allows.",
     "all reserves, pool price ranges, order prices, windows and tick precisions",
     "tests compute a handful of pools; the amounts come from divisions of up to 40-digit reserves with directed rounding, and one unit too much lets traders drain the pool",
     [AM+"pool.go"], [("BuyAmountOver, SellAmountUnder, BuyAmountTo, SellAmountTo, PoolBuyOrders, PoolSellOrders", AM+"pool.go"), ("DeriveTranslation", AM+"pool.go")],
     hs=["hamm/poolamt", "hamm/rangedamt", "hamm/poolordersfar", "hamm/poolorders", "hamm/rangedorders", "hamm/poolordersmany!"], q=60,
     assume=["the square roots used when the pool price is outside the order window are executed on concrete reserves only"])
prop("C07", "Deposits mint no more than the paid share and take no more than offered",
     "A deposit takes at most the offered coins on each side and mints at most the share of the pool that the taken coins represent, so holders are never diluted by more than the 18th decimal, and it mints as many pool coins and takes as few coins as that allows. If nothing can be minted nothing is taken.",
     "all reserves, pool coin supplies and offered amounts",
     "tests use a few pools; dilution depends on the remainders of three chained divisions",
     [AM+"pool.go"], [("Deposit", AM+"pool.go")], hs=["hamm/deposit", "hamm/depositprop"], q=30)
prop("C08", "Withdrawals pay exactly the redeemed share, and the last one pays everything",
     "Redeeming pool coins pays on each side the redeemed share of the reserve less the withdrawal fee, rounded down, so those who stay never lose; redeeming the whole supply pays all reserves. Depositing and redeeming at once gains nothing.",
     "all reserves, supplies, redeemed amounts and fee rates",
     "tests use a few pools; gains come from remainders of chained divisions",
     [AM+"pool.go"], [("Withdraw", AM+"pool.go")], hs=["hamm/withdraw", "hamm/withdrawres", "hamm/roundtrip"], q=30)

K = "x/dex/keeper/"
T = "x/dex/types/"
prop("C09", "Placing an order escrows exactly what it can need, or nothing",
     "A limit or market-making order is accepted exactly when its pair exists, its coins are the pair's, its price is in range, its lifespan within the limit, its size not too small, and the offered coins cover it and are spendable. An accepted order moves exactly the coins it can need at its price on the grid from the orderer to the pair's escrow and is stored with the next id and the current batch; a rejected one has no effect.",
     "every order type, direction, price, amount, offer, balance, denomination, pair and lifespan",
     "tests place a few dozen orders; the amount escrowed depends on the rounding of the price to the grid and of the product, over 10^40 amounts",
     [K+"swap.go", T+"msgs.go", T+"util.go"], [("Keeper.placeOrder, LimitOrder, MMOrder", K+"swap.go"), ("ValidateBasic", T+"msgs.go")],
     hs=["happ/place", "happ/placesymprice", "happ/placebad"], q=30, assume=["rounding to the grid itself is C01's subject"])
prop("C10", "An order's unspent coins go back exactly once, only to its owner",
     "Only the owner can cancel an order, only when it is not already canceled and was not placed in the current batch. Canceling, expiry and completion each return exactly the remaining offer from the pair's escrow once, whatever is tried afterwards, and touch no other order or account.",
     "every order state (type, direction, status, batch, open and remaining amounts), message and block time",
     "tests follow a few orders through one ending each; double refunds need a particular order of cancel, expiry, completion and batch",
     [K+"swap.go", K+"batch.go"], [("CancelOrder, CancelAllOrders, FinishOrder", K+"swap.go"), ("ExecuteRequests", K+"batch.go")],
     hs=["happ/cancel", "happ/cancelall", "happ/timing", "happ/expire"], q=60)
prop("C11", "Running a batch always succeeds and accounts for every coin",
     "At the end of a batch every order's received coins are paid out, its paid coins leave the escrow, the escrow holds exactly the remaining offers of live orders, pools and traders together lose nothing but a non-negative rounding remainder in quote coins sent to the dust collector. The batch never fails or panics, whatever orders, pools and last price it starts from.",
     "every state of the open orders consistent with the escrow, including arbitrary earlier partial fills",
     "a failing batch halts the chain; tests run a handful of books and pools, the remainders of the divisions decide whether the transfers add up",
     [K+"swap.go", K+"batch.go", T+"order.go", T+"util.go"], [("ExecuteMatching, Match, ApplyMatchResult", K+"swap.go"), ("BulkSendCoinsOperation", T+"util.go")], over=("inputs", "histories"),
     hs=["happ/batch2", "happ/batchextreme", "happ/batchlocked", "happ/batchpool", "happ/batch3!", "happ/batchfair!"], q=70)
prop("C19", "No order is accepted outside the price limits",
     "In a pair with a last price, limit and market-making orders are accepted only at prices within the configured ratio of the last price, the limits themselves being rounded inwards to the grid; in a pair without one, only between the lowest and the highest grid price. The stored price is the asked one rounded to the grid in the orderer's favour: down for a buy, up for a sell.",
     "every last price, order price, limit ratio and tick precision",
     "tests check both sides of two boundaries; the boundaries depend on rounding at each decade",
     [K+"swap.go", T+"util.go"], [("PriceLimits", T+"util.go"), ("placeOrder", K+"swap.go")],
     hs=["happ/limitprice", "happ/limitlast"], q=40)
prop("C27", "Market orders trade at the price limit around the last price or not at all",
     "A market order is rejected when the pair has no last price. Otherwise it becomes an order at the last price moved by the limit ratio, up and rounded down to the grid for a buy, down and rounded up for a sell, escrows exactly what that price needs, and is rejected if the offer does not cover it.",
     "every last price, amount, offer, balance, limit ratio and tick precision",
     "tests place two market orders; the price and the escrow come from rounding at each decade",
     [K+"swap.go"], [("placeOrder, MarketOrder", K+"swap.go")],
     hs=["happ/market", "happ/marketlast"], q=40)
prop("C12", "A deposit request takes, mints and refunds exactly once",
     "A deposit is accepted only into an existing, active pool, in the pool's own coins, fully covered by the depositor's balance, and moves exactly the offered coins to escrow. At the end of the batch the pool gets the accepted part, the depositor gets the minted pool coins and the whole rest back, and nothing stays in escrow; it is executed once, and a deposit that can mint nothing returns everything and is marked failed.",
     "all reserves, supplies, offered amounts, balances and pool states, and every order of requests within the bounds",
     "tests make a few deposits; refunds and minting depend on the state left by the requests before",
     [K+"pool.go", K+"batch.go", T+"msgs.go"], [("Deposit, ExecuteDepositRequest, FinishDepositRequest", K+"pool.go"), ("ExecuteRequests", K+"batch.go")], over=("inputs", "histories"),
     hs=["happ/depositcon", "happ/timing", "happ/requests", "happ/depositsym"], q=60, assume=["the amounts accepted and minted are C07's subject"])
prop("C13", "A withdraw request burns, pays and refunds exactly once",
     "A withdrawal is accepted only from an existing, active pool and only in that pool's own coin, fully covered by the withdrawer's balance. At the end of the batch exactly the redeemed pool coins are burned and the withdrawn coins paid from the pool, or the pool coins go back and the request is marked failed; it is executed once, nothing stays in escrow, and redeeming the whole supply disables the pool.",
     "all reserves, supplies, redeemed amounts, balances, fee rates 0, 0.3 % and 100 % and pool states, and every order of requests within the bounds",
     "tests make a few withdrawals; the outcome depends on the state left by the requests before",
     [K+"pool.go", K+"batch.go", T+"msgs.go"], [("Withdraw, ExecuteWithdrawRequest, FinishWithdrawRequest", K+"pool.go"), ("ExecuteRequests", K+"batch.go")], over=("inputs", "histories"),
     hs=["happ/timing", "happ/withdrawsym", "happ/withdrawcon", "happ/requests"], q=50, assume=["the amounts paid are C08's subject"])

M = "x/dex/module/"
prop("C21", "Orders and requests wait for their batch's end, finish once, then vanish",
     "Orders, deposits and withdrawals stay untouched until the block that ends their batch, whose height is a multiple of the batch size, and are executed there. A live order expires at the first batch end at or after its expiry time, or when what is left of it is too small to trade, and never before: it takes part in the batch it was placed in whatever its lifespan, and in no batch after it is due. Finished orders and requests are removed from the state and the lists in the next block, live ones stay.",
     "every batch size, placement height, lifespan, block time, order state and amount within the bounds",
     "tests use a batch size of one block and a few lifespans; a request finished too early, too late or twice needs a particular alignment of heights and times",
     [M+"abci.go", K+"batch.go", T+"request.go"], [("BeginBlocker, EndBlocker", M+"abci.go"), ("ExecuteRequests, DeleteOutdatedRequests", K+"batch.go"), ("Order.ExpiredAt, ShouldBeDeleted", T+"request.go")], over=("inputs", "histories"),
     hs=["happ/timing", "happ/expire", "happ/lifespan"], q=40)

prop("C14", "A pair is created once per denomination pair, for the fee, and can be found",
     "Creating a pair succeeds exactly when both denominations are valid and different, no pair exists for them in that order, and the creator can pay the creation fee, which goes to the fee collector. The pair gets the next id, an escrow account of its own, no last price and batch 1, and is found by its denominations in both orders; a rejected request changes nothing.",
     "every pair of denominations within the bounds, set of existing pairs, fee and balance",
     "tests create a few pairs with short names; the index keys depend on the lengths of the names and one being a prefix of another",
     [K+"pair.go", T+"keys.go", T+"pair.go"], [("CreatePair", K+"pair.go"), ("GetPairIndexKey, GetPairsByDenomsIndexKey", T+"keys.go")],
     hs=["happ/pair"], q=20)
prop("C15", "A pool is created only within the rules, takes its deposit and is recorded",
     "Creating a pool succeeds exactly when the pair exists, the deposited coins are its coins and cover the minimum initial deposit, the price or price range is within the allowed bounds, the pair has no other active basic pool and fewer active pools than the limit, and the creator can pay deposit and fee. The accepted deposit moves to the pool's reserve, the fee to the fee collector, the initial pool coins, at least the minimum supply, to the creator; the pool gets the next id and is found by it, by its pair and by its reserve account. A rejected request changes nothing.",
     "all deposits, minimum deposits, minimum supplies, fees and balances, and every range and set of existing pools within the bounds",
     "tests create a few pools; acceptance and supply depend on the digits of both amounts, and a ranged pool's deposit on which end of the range its price is",
     [K+"pool.go", T+"pool.go", AM+"pool.go"], [("CreatePool, CreateRangedPool", K+"pool.go"), ("CreateBasicPool, CreateRangedPool, InitialPoolCoinSupply", AM+"pool.go")],
     hs=["happ/newbasic", "happ/newranged"], q=60)
prop("C16", "Export and import restore the state exactly; contradictory states are refused",
     "Exporting the module's state and importing it into an empty chain restores it exactly (every pair, pool, order, request, counter, index and parameter) at any moment of a batch, and the exported state always passes validation. A state whose records contradict each other (duplicates, unknown pairs or pools, pair or pool ids beyond the counters, foreign denominations, impossible amounts, invalid addresses or parameters) is refused before it is imported.",
     "every state reached by the histories within the bounds, with every order type, direction, status and age, and all amounts",
     "the tests export one or two small states; whatever an export forgets shows only in states that have it",
     [M+"genesis.go", T+"genesis.go"], [("InitGenesis, ExportGenesis", M+"genesis.go"), ("GenesisState.Validate", T+"genesis.go")], over=("inputs", "histories"),
     hs=["happ/genesis", "happ/genesisbad"], q=60)
prop("C18", "The number of a user's open market-making orders is exact and limited",
     "For every user and pair the recorded number of market-making orders equals the number of such orders that are still live, after every sequence of placements, cancellations, fills, expiries and block ends. A further one is accepted exactly while the number is below the limit in force.",
     "every sequence of placements, cancels and batches of two users in two pairs within the bounds",
     "a miscount needs a particular ending of an order (filled, expired, canceled singly or with all others) and locks a user out or lifts the limit",
     [K+"swap.go"], [("MMOrder, FinishOrder", K+"swap.go")], over=("histories", "inputs"),
     hs=["happ/mm4", "happ/mm5!"], q=60)
prop("C20", "Only governance changes the parameters, and only to values that work",
     "The parameters change only by a request of the governance account, and only if every value is within its domain, so that no accepted value makes orders, requests or blocks fail. An accepted update is stored exactly and is what every later reading shows; a rejected one changes nothing.",
     "every sender, and every value of each parameter (amounts and rates all at once)",
     "tests update once; a bound that is off by one or missing shows only at that value, and an unworkable value stops the chain",
     [K+"msg_server.go", K+"params.go", T+"params.go"], [("UpdateParams", K+"msg_server.go"), ("Params.Validate", T+"params.go")],
     hs=["happ/params"], q=30)
prop("C22", "The module's invariants report a fault exactly when there is one",
     "The registered invariants are quiet on every sound state and report a fault whenever the escrow of a pair holds less than its live orders' remaining offers, the global escrow holds less than the pending deposits or withdrawals, an active pool's coin has no supply, or a recorded number of market-making orders is wrong or missing. The combined check reports exactly when one of them does.",
     "every status of two orders, deposits and withdrawals, all amounts, escrow balances and supplies, every wrong count",
     "tests break each invariant once; an invariant that skips a status or a coin looks the same on sound states",
     [K+"invariants.go"], [("DepositCoinsEscrowInvariant, PoolCoinEscrowInvariant, RemainingOfferCoinEscrowInvariant, PoolStatusInvariant, NumMMOrdersRecordsInvariant, AllInvariants", K+"invariants.go")],
     hs=["happ/invariants"], q=60)
prop("C23", "Running the same blocks twice gives the same state, events and errors",
     "The state, the emitted events, the responses and the errors after any sequence of messages and blocks depend only on that sequence, never on the order in which a run of the program happens to iterate over its maps.",
     "every combination of map iteration orders within the bounds, over histories of all kinds of messages, and all amounts of one order",
     "validators that disagree halt the chain; one run in a test takes one iteration order, and small maps hide it further",
     [K+"batch.go", K+"swap.go", AM+"match.go", T+"util.go"], [("ExecuteRequests, ApplyMatchResult, CancelAllOrders", K+"swap.go"), ("BulkSendCoinsOperation", T+"util.go")], over=("schedules", "histories"),
     hs=["happ/twicehistory", "happ/twicebatch"], q=40, assume=["each map is iterated from an arbitrary starting point on, as the Go runtime does for small maps"])
prop("C24", "Queries show exactly what is stored, however they are asked",
     "Every list query returns exactly the entries that match its filter, each once and in order, whether it is read in one piece, page by page, backwards or by offset, and single entries are found exactly if they exist. A pool is shown with its actual reserves, supply and price, the price exactly when it can trade; malformed requests are refused, and no request makes the node panic.",
     "the state at every point of a history, all pool reserves and supplies, every filter and way of paging within the bounds",
     "tests ask a few queries on small states; what a prefix or an index key leaves out or adds depends on the other entries",
     [K+"grpc_query.go", T+"keys.go"], [("Pairs, Pools, Pool, Orders, OrdersByOrderer, DepositRequests, WithdrawRequests, NumMMOrders", K+"grpc_query.go")],
     hs=["happ/querylists", "happ/querypool"], q=30)
prop("C25", "Malformed messages are refused, well-formed ones never make execution panic",
     "A message is refused by its stateless check exactly when one of its fields is malformed: an address that is no account, a pair, pool or order number of zero, an undefined direction, invalid, equal, missing or superfluous denominations, a non-positive price, a pool price range outside the bounds, an amount outside 100..10^40, an offer below what the order can need, a negative lifespan, or a repeated pair; it is then not executed. No message that passes makes its execution or the batch that follows panic. The account a message acts for is the account that has to sign it.",
     "every amount and price within the bounds, each field of each message type malformed in every way within the bounds",
     "tests check one value per rule; an offer short by a fraction of a coin, or a duplicate that is not adjacent, needs particular values",
     [T+"msgs.go", K+"msg_server.go"], [("ValidateBasic, GetSigners of every message", T+"msgs.go"), ("ValidateRangedPoolParams", AM+"pool.go")],
     hs=["happ/messages"], q=60)
prop("C17", "Events report exactly what happened",
     "Every accepted message emits one event of its kind with the account, the numbers and the amounts as they are recorded, refunds included. In a batch every order that is matched or ends, every pool that trades, and every deposit and withdrawal that is executed is reported by exactly one event of its kind, with exactly the amounts that were matched, paid, received, accepted, minted, withdrawn and refunded. Nothing that did not happen is reported.",
     "every amount of each message within the bounds, every batch of up to three orders with and without a pool and with a request",
     "indexers and clients see nothing but events; tests hardly look at them, and a wrong amount shows only in a particular kind of fill or refund",
     [K+"swap.go", K+"pool.go", K+"pair.go"], [("placeOrder, CancelOrder, CancelAllOrders, ApplyMatchResult, FinishOrder", K+"swap.go"), ("CreatePool, CreateRangedPool, Deposit, Withdraw, FinishDepositRequest, FinishWithdrawRequest", K+"pool.go"), ("CreatePair", K+"pair.go")], over=("inputs", "histories"),
     hs=["happ/eventmsgs", "happ/eventbatch"], q=60)
prop("C26", "Orders, deposits and withdrawals are charged their extra gas exactly once",
     "Each accepted order of any type, deposit and withdrawal consumes exactly the extra gas that the parameter of its kind sets, on top of what it consumes otherwise, and no other message does. The parameter does not change what is accepted, and a message without enough gas for it does not get through.",
     "every amount, order type and direction, and two values of each parameter",
     "the extra gas pays for the batch that executes the request; a kind of order or deposit that goes free looks the same in every state the tests compare",
     [K+"swap.go", K+"pool.go"], [("placeOrder", K+"swap.go"), ("Deposit, Withdraw", K+"pool.go")],
     hs=["happ/extragas"], q=30)
prop("C28", "The order book shown is what is left after the crossing orders are matched",
     "The order book query adds up, tick by tick and in price order, the open amounts of the live orders and of the active pools within the price limits that are left when the largest crossing amount is matched: nothing twice, nothing left out up to the last tick shown, nothing of finished orders or disabled pools. Its base price lies between the best remaining prices, and a book that clears completely is shown empty.",
     "every open amount in six books of up to four orders with and without a pool",
     "tests print a few books; what is left depends on the sums on both sides, and the exact tie was in fact shown wrongly (see known findings)",
     [K+"grpc_query.go", AM+"view.go", T+"orderbook.go"], [("OrderBooks", K+"grpc_query.go"), ("MakeView, Match", AM+"view.go"), ("MakeOrderBookPairResponse", T+"orderbook.go")],
     hs=["happ/orderbook"], q=160)
prop("C29", "What a pair's batch does depends on nothing but its own live orders and pools",
     "A batch gives the same fills, last price, statuses, payments, pool reserves and executed deposits whatever disabled or depleted pools and finished or expired orders the pair has, whatever is pending in older or newer pairs (orders, pools, deposits and withdrawals) and whatever coins were sent to the escrow accounts.",
     "every amount in up to eight settings, run alone and together with each of twelve kinds of unrelated state",
     "tests run one pair with live records; an iteration that stops at a record it should skip, or state shared between pairs, shows only where such records come first",
     [K+"swap.go", K+"batch.go", K+"store.go", K+"pool.go"], [("ExecuteMatching", K+"swap.go"), ("ExecuteRequests", K+"batch.go"), ("IteratePoolsByPair, IterateOrdersByPair", K+"store.go")],
     hs=["happ/others"], q=60)
