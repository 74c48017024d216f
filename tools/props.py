# (id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)])
C="contracts/core/src/"
P=[
("C01","Minting takes exactly the deposit the current units prescribe",
 "A mint succeeds only if the sender pays, for every index asset, at least unit x amount (rounded down, but never zero), measured with the units after the streaming fee due at that moment; everything paid beyond that is returned to the refund address and nothing else leaves the contract. A deposit that lacks or underpays any index asset is refused.",
 ["inputs","configurations"],"every amount, unit, supply, set of funds, fee strategy and time",
 "The tests mint a handful of round amounts with one or two assets; the rounding boundary, missing or surplus coins and accrued fees range over all 128-bit values.",
 [C+"execute/token.rs",C+"state/units.rs",C+"contract.rs"],[("mint",C+"execute/token.rs"),("calc_refund_amount",C+"state/units.rs")]),
("C02","Minted index tokens add up: receiver, collector, supply",
 "A successful mint creates exactly the requested amount of index tokens and raises the recorded supply by it: the mint fee (at least one unit when a fee is set) goes to the fee collector and all the rest to the receiver, or to the sender if none is named. No other state changes.",
 ["inputs","configurations"],"every amount, supply, fee rate and choice of receiver and refund address",
 "Tests check fixed amounts and fee rates; fee rounding, tiny amounts and overflow need every value.",
 [C+"execute/token.rs"],[("mint",C+"execute/token.rs"),("make_mint_msgs_with_fee_collection",C+"execute/fee.rs")]),
("C03","Redeeming burns exactly what was paid and pays out the units",
 "A redemption accepts only index tokens as its single payment, gives the burn fee to the collector, destroys the rest and lowers the recorded supply by exactly what was destroyed. It pays unit x destroyed amount, rounded down, of every index asset, under the units after the fee due at that moment, to the named receiver or the sender, and nothing else.",
 ["inputs","configurations"],"every payment, unit, supply, fee strategy and time",
 "Tests redeem a few round amounts; the rounding of fees and payouts and foreign or mixed payments range over all values.",
 [C+"execute/token.rs",C+"state/units.rs"],[("burn",C+"execute/token.rs"),("calc_redeem_amount",C+"state/units.rs")]),
("C04","The vault can always pay what it owes",
 "Whatever sequence of minting, redeeming, fee settlement, fee payout, trading and converting happens, what the contract owes (units over the whole supply, fees collected and not yet paid, and the reserve of a rebalance) never grows beyond what it holds by more than the rounding of stored units.",
 ["histories","inputs"],"every state in which the contract is solvent and every operation on it (an inductive step, so any history)",
 "A sum over all assets and holders after any history; tests never compare liabilities with holdings.",
 [C+"execute/token.rs",C+"state/fee.rs",C+"execute/rebalance/trade/mod.rs"],[("units and supply bookkeeping",C+"state/units.rs"),("collect",C+"state/fee.rs")]),
("C05","Minting and redeeming back never yields a profit",
 "Redeeming what a mint just produced never returns more of any asset than the mint took. Splitting a redemption into several never pays more in total than doing it at once.",
 ["histories","inputs"],"every amount, unit, supply and fee configuration, at one point in time",
 "A relation between two operations over all values; tests run them separately with round numbers.",
 [C+"execute/token.rs",C+"state/units.rs"],[("calc_refund_amount / calc_redeem_amount",C+"state/units.rs")]),
("C06","The streaming fee takes what its rate says, and nothing gets lost",
 "Settling the streaming fee lowers every unit by exactly what it adds to the collected fees; the amount taken is unit x ((1+rate)^seconds - 1) for the time since the last settlement, nothing is taken twice for the same time, and nothing while the fee is frozen. Settling never fails for any rate the contract accepts.",
 ["inputs","histories"],"every unit, rate, supply and elapsed time",
 "Tests use a few fixed periods and rates; compounding, rounding and the failing region need all of them.",
 [C+"state/fee.rs",C+"execute/fee.rs"],[("StreamingFee::collect",C+"state/fee.rs"),("collect_streaming_fee",C+"execute/fee.rs")]),
("C07","Collected fees go to the collector, once and in full",
 "Realizing pays the collector every collected fee (rounded down to base units) exactly once, only at the collector's request, and clears the record. Changing the fee strategy never takes collected fees away from the collector who earned them.",
 ["inputs","histories"],"every collected amount, supply, sender and time",
 "Tests realize once with fixed amounts; double payment, rounding and the interplay with a strategy change are histories.",
 [C+"execute/fee.rs",C+"execute/gov/update.rs"],[("realize_streaming_fee",C+"execute/fee.rs"),("update_fee_strategy",C+"execute/gov/update.rs")]),
("C08","Only fee strategies within the limits are accepted",
 "Neither at creation nor by a later change can a fee of zero or less, a mint or burn fee of 100 % or more, or a streaming fee above its cap be set; any strategy within the limits and with a valid collector is accepted and is stored as given.",
 ["inputs","configurations"],"every combination of rates at creation and at update",
 "Tests try single values next to the limits; acceptance must be exact for every combination.",
 [C+"state/fee.rs",C+"execute/gov/update.rs",C+"contract.rs"],[("Fee::check_rates",C+"state/fee.rs")]),
("C09","Pausing stops minting and redeeming until its expiry and no longer",
 "While the contract is paused and the pause has not run out, nobody can mint or redeem; once it has run out or been released, both work again without further action. Pausing never disables governance, and what is reported about the pause agrees with what is enforced.",
 ["inputs","histories"],"every time, expiry and operation, before, at and after expiry",
 "Tests use fixed times; the boundary instant and the mixture of states range over all times.",
 [C+"state/pause.rs",C+"execute/gov/pause.rs"],[("PauseInfo::assert_not_paused / refresh",C+"state/pause.rs")]),
("C10","Only governance governs, and only as asked",
 "Each governance operation succeeds only for the current governance account, changes exactly the setting it names, and moves no assets. After a handover the new account governs and the old one does not.",
 ["inputs","histories"],"every sender, operation and argument",
 "Tests try one stranger per operation; every sender and every frame condition are outside their reach.",
 [C+"execute/gov/update.rs",C+"execute/gov/mod.rs"],[("check_gov",C+"state/config.rs")]),
("C11","A rebalance starts only on a well-formed plan from governance",
 "A rebalance starts exactly if governance asks, none is running, and the plan is well formed: non-empty, without duplicates, lowering only existing assets and to no more than their current unit, raising none that it also lowers, with non-zero weights and a valid manager. Starting settles and freezes the streaming fee, keeps all units, and starts with an empty reserve.",
 ["inputs","configurations"],"every plan over a bounded set of assets, every target, weight, sender and state",
 "Tests try a few bad plans one at a time; the exact accept set over all values cannot be enumerated.",
 [C+"execute/rebalance/init.rs",C+"state/rebalance.rs"],[("Rebalance::validate",C+"state/rebalance.rs"),("init",C+"execute/rebalance/init.rs")]),
("C12","Rebalancing and ordinary use exclude each other",
 "While a rebalance is running nobody can mint, redeem, start another one, change the reserve denomination or the fee strategy; trading, finalizing and changing the manager are possible only then. After it is finalized everything works as before.",
 ["histories","inputs"],"every operation in either phase, and whole cycles",
 "Tests cover single operations in single phases; the exclusion has to hold for all of them and across a cycle.",
 [C+"execute/rebalance/",C+"execute/token.rs",C+"execute/gov/update.rs"],[("REBALANCE guard",C+"state/rebalance.rs")]),
("C13","Trades belong to the manager, or to anyone if there is none",
 "With a manager named, only this account can trade or finalize, and after governance replaces it only the new one; without a manager anybody can. Governance itself has no such right.",
 ["inputs","histories"],"every sender and operation, with and without manager and handover",
 "Tests try one stranger; every sender in every configuration is outside their reach.",
 [C+"execute/rebalance/trade/mod.rs",C+"execute/rebalance/finalize.rs"],[("Rebalance::validate_manager",C+"state/rebalance.rs")]),
("C14","Deflation sells within target, slippage, size and cooldown limits",
 "A deflation trade never brings the unit below its target, never exceeds the trade's maximum size or the caller's maximum input, and never comes before the cooldown has passed; it spends at most the estimated input. The unit falls by the input over the supply and the proceeds are added to the reserve, split by the inflation weights without loss; nothing else changes.",
 ["inputs","histories"],"every unit, target, supply, weight, estimate, limit and time",
 "Tests run a single trade with round numbers; rounding, limits and repeated trades range over all values.",
 [C+"execute/rebalance/trade/deflate.rs",C+"state/rebalance.rs"],[("deflate",C+"execute/rebalance/trade/deflate.rs"),("inflate_reserve_unit",C+"execute/rebalance/trade/deflate.rs"),("TradeInfo::assert",C+"state/rebalance.rs")]),
("C15","Inflation buys only from its reserve share and within the limits",
 "An inflation trade spends at most the reserve set aside for its asset, stays within the trade's maximum size and cooldown, and fails if it would yield less than the caller's minimum. The unit rises by what was bought over the supply, the asset's reserve falls by what was spent, and nothing else changes.",
 ["inputs","histories"],"every unit, reserve, supply, estimate, limit and time",
 "Tests run a single trade with round numbers; rounding, limits and repeated trades range over all values.",
 [C+"execute/rebalance/trade/inflate.rs",C+"state/rebalance.rs"],[("inflate",C+"execute/rebalance/trade/inflate.rs")]),
("C16","The reserve asset itself is converted one to one, without a swap",
 "If the asset to be lowered or raised is the reserve denomination, its unit is moved to or from the reserve in full and without rounding loss, no swap is made and no other unit, reserve or setting changes.",
 ["inputs"],"every unit, target, weight and reserve",
 "Tests use weights that divide evenly; loss by rounding shows only for others.",
 [C+"execute/rebalance/trade/deflate.rs"],[("reserve-denom branches of deflate and inflate",C+"execute/rebalance/trade/deflate.rs")]),
("C17","A rebalance is finalized exactly when nothing tradable is left",
 "Finalizing succeeds exactly if every asset to be lowered has reached its target and the reserve is spent, except for remainders worth less than one base unit over the whole supply. It removes the plan and zero units, keeps all other units, and restarts the streaming fee so that the time spent rebalancing is not charged.",
 ["inputs","histories"],"every unit, target, reserve, supply and time",
 "Tests finalize one clean state; the boundary cases and the fee clock need all values.",
 [C+"execute/rebalance/finalize.rs",C+"state/fee.rs"],[("finalize",C+"execute/rebalance/finalize.rs")]),
("C18","What the contract reports is what it will do",
 "Simulated minting and redeeming report exactly the deposit, payout and fees that executing the same thing at the same time would have, and the reported portfolio and fees are those after the fee due at the asked time. Reported supply, balances, settings and rebalance plan are those in force; asking changes nothing.",
 ["inputs","histories"],"every amount, unit, supply, fee strategy and time",
 "An agreement between two computations over all values; tests compare each with constants.",
 [C+"query.rs",C+"execute/token.rs",C+"state/fee.rs"],[("simulate_mint / simulate_burn / get_portfolio / get_fee",C+"query.rs")]),
("C19","A new index starts empty, as configured, with its own denomination",
 "Creation fails for duplicate assets or invalid accounts; otherwise the index starts with zero supply, unpaused, with no collected fees and exactly the settings given, and asks the chain for exactly one new denomination of its own. Only the chain's confirmation of that request sets the index denomination, to the one confirmed, and changes nothing else.",
 ["inputs","configurations"],"every configuration over a bounded set of assets, every creation time and confirmation",
 "Tests create a single valid configuration.",
 [C+"contract.rs",C+"state/units.rs"],[("instantiate",C+"contract.rs"),("reply",C+"contract.rs")]),
("C20","Migration only goes forward unless forced",
 "For each of the contracts a migration succeeds exactly if the stored contract is the same one with an older version, or if force is given; it then records the new version and changes nothing else.",
 ["inputs","configurations"],"every stored version triple and contract name of bounded size, with and without force",
 "Tests do not cover migration.",
 ["packages/utils/src/lib.rs",C+"contract.rs","contracts/airdrop/src/contract.rs","contracts/periphery/src/contract.rs"],[("store_version","packages/utils/src/lib.rs")]),
("C21","Trade settings are found under the pair they were registered for",
 "A registered trade setting, over a route of any length, is found under the asset sold and the asset the route ends in, as given and never traded; other pairs are left alone. Listing reports every registered pair of an asset exactly once, in the asked order, over pages of any size.",
 ["inputs","configurations"],"every setting, route of one or two hops, page size and order",
 "Tests register one single-hop route; page boundaries and multi-hop routes are not covered.",
 [C+"execute/gov/update.rs",C+"query.rs","packages/interface/src/types.rs"],[("update_trade_info",C+"execute/gov/update.rs"),("list_trade_info",C+"query.rs"),("denom_last","packages/interface/src/types.rs")]),
]
A_="contracts/airdrop/src/"
P += [
("C22","An airdrop is registered as given, under a fresh number, with what was paid",
 "Registering succeeds exactly if the root is well formed, one coin of the airdrop's denomination is attached, the label is free for the registrar and, for a signed airdrop, the signer proved its key. The airdrop gets the next number, is reported under it and its label exactly as given, holds what was paid, and changes no other airdrop.",
 ["inputs","histories"],"every payment, label, root and state of other airdrops",
 "Tests register one airdrop per kind; numbering, labels and the state of others are not varied.",
 [A_+"execute/register.rs",A_+"state.rs"],[("register",A_+"execute/register.rs"),("GetAirdrop",A_+"query/airdrop.rs")]),
("C23","Only its creator adds to an open airdrop, by exactly what is paid",
 "Funding succeeds exactly for the creator of an airdrop that is not closed, with one coin of its denomination. The total rises by that amount; what was claimed, the list and all other airdrops stay the same.",
 ["inputs"],"every total, claimed amount, payment and sender",
 "Tests fund with one amount; overflow, other coins and neighbouring airdrops need all values.",
 [A_+"execute/fund.rs"],[("fund",A_+"execute/fund.rs")]),
("C24","An open airdrop pays each listed account once, exactly its listed amount",
 "A claim succeeds exactly if the airdrop is open, the account and amount are on its list, nothing was claimed for that account in that airdrop before, and the remaining funds suffice. It pays the listed amount to the listed account, whoever sends it, and counts it; claims never exceed the total, and a claim is not made twice.",
 ["inputs","histories"],"every claimant name of bounded length, every amount and proof of the stated shapes, every total and claimed amount",
 "Tests try a few names, amounts and proofs; that no other name or amount can claim needs all of them.",
 [A_+"execute/claim.rs",A_+"verify.rs",A_+"state.rs"],[("claim_open",A_+"execute/claim.rs"),("verify_merkle_proof",A_+"verify.rs")]),
("C25","Closing returns exactly the remainder to the creator, once and for all",
 "Closing succeeds exactly for the creator of an open airdrop, pays the creator the total less what was claimed and marks it closed. After that nothing can be claimed from, added to or closed again; other airdrops stay the same.",
 ["inputs","histories"],"every total, claimed amount and sender, followed by any one further operation",
 "Tests close one airdrop; the amounts and what may follow need all values.",
 [A_+"execute/close.rs"],[("close",A_+"execute/close.rs")]),
("C26","The airdrop contract always holds what its open airdrops still owe",
 "Over all airdrops, the sum of the unclaimed amounts changes with every operation by exactly what is paid in less what is paid out, so no operation on one airdrop can spend the funds of another.",
 ["inputs","histories"],"an inductive step: any operation from any state of two airdrops",
 "An invariant over histories; tests never add up what several airdrops owe.",
 [A_+"execute/mod.rs",A_+"contract.rs"],[("execute",A_+"contract.rs")]),
("C27","A signed airdrop pays a claim key once, to the account the signer named",
 "A claim succeeds exactly if the airdrop is open, the claim key and amount are on its list, the registered signer signed this key, account and amount, nothing was claimed with the key before, and the funds suffice. It pays the amount to the named account and counts it, once per key; open and signed airdrops are not interchangeable.",
 ["inputs","histories"],"every key and account name of bounded length, every amount, proofs of the stated shapes, every signed message of the stated shapes",
 "Tests use one signed message; that no other message passes needs all of them.",
 [A_+"execute/claim.rs",A_+"verify.rs"],[("claim_bearer",A_+"execute/claim.rs"),("verify_merkle_proof",A_+"verify.rs")]),
("C28","What the airdrop contract reports agrees with what it does and holds",
 "Checking a claim beforehand says valid exactly if making it would succeed. Listings by number, kind, creator and label, and of claims and labels, report every item exactly once with its stored values, in the asked order, for every page size, and nothing else; a page holds ten items unless asked otherwise, and more than thirty are refused. One airdrop, claim or label asked for is reported with its stored values, and one that does not exist is an error.",
 ["inputs","histories","configurations"],"every amount and stored value, every number of items up to the bound, every page size, order and start",
 "Tests list a handful of items in one order; page boundaries and filters are combinations they do not reach.",
 [A_+"query/airdrop.rs",A_+"query/claim.rs",A_+"query/label.rs"],[("verify_claim",A_+"query/claim.rs"),("list_airdrops",A_+"query/airdrop.rs"),("list_labels",A_+"query/label.rs")]),
]
X_="contracts/periphery/src/"
S_="packages/pool/src/sim/"
P += [
("C29","Only the periphery itself finishes an operation, sending its whole balance",
 "Finishing an operation succeeds only when the periphery contract itself is the sender and the receiver is a valid account; it sends exactly the contract's whole balance of the named denomination to that receiver and touches nothing else. Nobody else can move what the contract holds.",
 ["inputs"],"every balance, sender, receiver and denomination of the stated kinds",
 "Tests never call it from outside.",
 [X_+"execute.rs"],[("finish_operation",X_+"execute.rs")]),
("C30","Minting for an exact payment mints at least the minimum and returns the rest",
 "When minting for an exact payment goes through, at least the minimum asked for was minted (before the core contract's mint fee), exactly the deposits for the minted amount were bought along the given routes, one swap per asset that needs one, the payer got the minted tokens less the mint fee and all that was not spent, and the periphery keeps nothing.",
 ["inputs","schedules"],"every payment, minimum, unit, supply, fee and every answer of the pools, over the portfolios stated in the bounds",
 "Depends on what arbitrary pools answer at every step of a search; tests use one set of pools and amounts.",
 [X_+"execute.rs",S_+"mod.rs",S_+"index_out.rs",S_+"route.rs"],[("mint_exact_amount_in",X_+"execute.rs"),("estimate_index_for_input",S_+"mod.rs"),("search_efficient_amount_for_input",S_+"index_out.rs"),("to_msgs",S_+"route.rs")]),
("C31","Minting an exact amount mints it, for at most the payment, and returns the rest",
 "When minting an exact amount goes through, exactly that amount was minted (before the core contract's mint fee), exactly its deposits were bought along the given routes, the worst case of all swaps is within the payment, the payer got the minted tokens less the mint fee and all that was not spent, and the periphery keeps nothing. A payment of at least what the pools quote is not refused, and what it exceeds the quotes by is allowed to the swaps as tolerance, in proportion to their quotes.",
 ["inputs","schedules"],"every payment, amount, unit, supply, fee and every answer of the pools, over the portfolios stated in the bounds",
 "Depends on arbitrary answers of the pools; tests use one set of pools and amounts.",
 [X_+"execute.rs",S_+"index_out.rs",S_+"route.rs"],[("mint_exact_amount_out",X_+"execute.rs"),("estimate_input_for_index",S_+"mod.rs"),("to_msgs",S_+"route.rs")]),
("C32","Redeeming for one asset pays at least the minimum and returns the rest",
 "Redeeming an exact amount burns all of it, sells what the core contract paid out and no more along the given routes, and yields at least the minimum asked for, up to one unit per swap and one part in 10^18 of the quoted total. Redeeming for a wanted amount burns at most the payment, asks of every swap no less than the pools quote, and returns the index tokens not burned. Proceeds and change go to the payer only.",
 ["inputs","schedules"],"every payment, minimum or wanted amount, unit, supply, fee and every answer of the pools, over the portfolios stated in the bounds",
 "Depends on arbitrary answers of the pools; tests use one set of pools and amounts.",
 [X_+"execute.rs",S_+"mod.rs",S_+"index_in.rs",S_+"route.rs"],[("burn_exact_amount_in",X_+"execute.rs"),("burn_exact_amount_out",X_+"execute.rs"),("estimate_index_for_output",S_+"mod.rs"),("search_efficient_amount_for_output",S_+"index_in.rs")]),
("C35","What the periphery simulates is what executing does",
 "For the same answers of the pools: the payment simulated for an exact amount of index tokens is enough to execute, its deposit list is what the core contract takes, and the user receives the simulated amount up to one base unit; executing a simulated redemption with the simulated output as the minimum goes through and yields it, its lists are what the core contract burns and pays up to one base unit. A simulation that searches stays within what was offered or wanted; the index tokens it promises are not more than the user gets for the payment it reports, and the redemption it reports is what the core contract pays for the amount burned.",
 ["inputs","schedules"],"every payment, amount, unit, supply, fee and every answer of the pools, over the portfolios stated in the bounds",
 "Two implementations must agree for every amount, fee and answer of the pools; no unit test calls the periphery's queries.",
 [X_+"query.rs",X_+"execute.rs",X_+"lib.rs",S_+"mod.rs"],[("simulate_mint_exact_amount_in",X_+"query.rs"),("simulate_mint_exact_amount_out",X_+"query.rs"),("simulate_burn_exact_amount_in",X_+"query.rs"),("simulate_burn_exact_amount_out",X_+"query.rs")]),
]
M_="packages/math/src/"
P += [
("C33","The power function is exact up to rounding wherever the pools need it",
 "A base of zero or of two and more is refused, every other base is accepted. An exponent of one gives the base, an exponent of zero or a base of one gives one. A whole exponent gives the exact power, never more, and less only by the roundings. A fraction as the exponent gives the real power to within 10^-8 as far as the binomial series up to the order stated in the bounds tells, and an exponent is the product of its whole and its fractional part.",
 ["inputs"],"every base and exponent of the stated ranges",
 "The table of the unit test has six rows; a series cut too early or a wrong step of the squaring shows for other exponents.",
 [M_+"pow.rs"],[("pow",M_+"pow.rs"),("pow_int",M_+"pow.rs"),("pow_approx",M_+"pow.rs")]),
]
W_="packages/pool/src/"
I_="packages/interface/src/"
P += [
("C34","A weighted pool quotes by its formula and moves by exactly what it quotes",
 "Swapping an exact input or output through a weighted pool is quoted by the weighted constant-product formula after the spread fee, to within one part in 10^18 of the pool's balance and one unit; what the formula allows is quoted, outputs of half the pool and more and assets the pool does not hold are refused. The pool then holds all of the input (the fee included) more and the quoted output less, everything else is as before. An estimate over several assets quotes later swaps from the pool as moved by the earlier ones, and the next estimate starts from the pools as reported.",
 ["inputs","histories"],"every balance, amount and fee up to the bounds for equal weights, every small trade for the other weights",
 "Tests compare a few swaps with a chain; rounding and the balances left behind show for other amounts and in later swaps only.",
 [W_+"weighted.rs",S_+"index_out.rs",S_+"index_in.rs"],[("calc_out_amount_given_in",W_+"weighted.rs"),("calc_in_amount_given_out",W_+"weighted.rs"),("apply_new_pool_assets",W_+"weighted.rs"),("estimate_token_given_index_out",S_+"index_out.rs")]),
("C36","Routes are used as written and pools as the chain reports them",
 "A compact route is read as written: the pair in its order, and the hops in theirs with their pool numbers and denominations; a hop without a number is refused. Swap messages and questions made of a route name exactly its hops, asset and amounts. The pools asked for are all that a set of routes names, each once; every pool is taken with the number, kind and spread factor reported, and its quote is what the chain (or, for a weighted pool, the reported balances) say.",
 ["inputs","configurations"],"every pool number, denomination, amount, spread factor and answer within the bounds",
 "Tests read one route of one hop; order, direction and numbers matter for routes of several.",
 [I_+"periphery.rs",I_+"types.rs",W_+"query.rs",W_+"concentrated.rs",W_+"stable.rs"],[("SwapInfo::from",I_+"periphery.rs"),("extract_pool_ids",I_+"periphery.rs"),("msg_swap_exact_in",I_+"types.rs"),("query_pools",W_+"query.rs")]),
]
NA = {}
