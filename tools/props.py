"""The properties: one entry each, in the order of properties.jsonl."""

PROPS = []
NOT_APPLICABLE = {}

R = "x/restaking/keeper/"


def P(id, title, statement, over, quant, why, files, mech, note, state=(), observe=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        "note": note,
    })


P("C01", "Delegated and unbonding coins are always fully backed",
  "At every moment the account of a pool, operator or service holds at least the tokens recorded as delegated to it, and the module account that holds unbonding coins holds at least the sum of all pending unbonding entries. Delegating, undelegating and completing an unbonding move coins one for one: no message creates coins, loses them or moves another user's.",
  "inputs histories",
  "every message on every kind of target, from every backed state of two users and two denoms with amounts up to 2^90, including rejected ones",
  "Tests delegate a few fixed amounts; conservation must hold for every amount, mix of denoms and history.",
  [R + "alias_functions.go", R + "pool_restaking.go", R + "unbond.go", R + "msg_server.go"],
  [("PerformDelegation moves the coins and adds the shares", R + "alias_functions.go"),
   ("PerformUndelegation and CompleteUnbonding move them back", R + "unbond.go")],
  "Inductive step over every message from an arbitrary backed state of two users, two denoms, amounts up to 2^90; any number of messages follows by induction inside those bounds.",
  [("target account balance", "coins behind the delegations", "x/bank")],
  ["bank balances of target and module accounts", "recorded target tokens", "unbonding entries"])

P("C02", "Shares, delegations and indexes of a target always agree",
  "For every pool, operator and service and every denom, the shares the target has issued equal the sum of the shares in its delegations, and the delegations listed by target are exactly the ones listed by delegator, none of them empty. A message of one user never changes what another user or another target holds.",
  "inputs histories",
  "every delegation and undelegation by either of two users on every kind of target from every consistent state, amounts up to 2^90; sequences of messages in the thorough tier",
  "Tests check the totals after single fixed operations; agreement must survive every amount and order, including emptied and re-created delegations.",
  [R + "alias_functions.go", R + "unbond.go", "x/restaking/types/keys.go"],
  [("SetDelegation and RemoveDelegation keep the two indexes", R + "alias_functions.go"),
   ("AddTokensFromDelegation, RemoveDelShares", "x/pools/types/models.go, x/operators/types/models.go, x/services/types/models.go")],
  "Inductive step from any consistent state of two users and two denoms (amounts up to 2^90), plus message sequences in the thorough tier.",
  [("target.DelegatorShares", "shares issued", "x/*/types/models.go")],
  ["target record", "delegation records", "by-target index"])

P("C03", "Shares are issued and redeemed at one rate, rounded against the mover",
  "Whatever the ratio of tokens to shares of a target, delegating issues shares worth at most the coins put in and redeeming pays at most what the shares are worth, each within one unit, so nobody else's claim shrinks. Delegating and undelegating the same coins never yields a profit, and the first delegation issues one share per coin.",
  "inputs",
  "every ratio of tokens to shares and every amount up to 2^60",
  "Rounding is right for the ratios a test picks; a profitable rounding needs an unusual ratio and amount.",
  ["x/pools/types/models.go", "x/operators/types/models.go", "x/services/types/models.go", "utils/restaking.go", R + "unbond.go"],
  [("SharesFromTokens, SharesFromTokensTruncated, TokensFromShares", "utils/restaking.go")],
  "All token/share ratios and amounts within the bounds given with each harness; nonlinear arithmetic decided by the solver.",
  observe=["issued shares", "paid tokens"])

P("C04", "Every unbonding is paid exactly once, on time, to its owner",
  "Each accepted undelegation is paid in full to its delegator in the first block whose time reaches the completion time, not before and not twice, whatever other unbondings are pending, however parameters changed since, and even if the target was deleted or has changed meanwhile. Completing unbondings never fails the block.",
  "histories schedules inputs",
  "two or more undelegations on one or two targets of any kind at arbitrary times with arbitrary amounts and parameter changes between, blocks at arbitrary times",
  "Tests mature one or two entries at fixed times; equal completion times, shared queues, parameter changes and deleted targets need specific schedules.",
  [R + "unbond.go", R + "alias_functions.go", "x/restaking/abci.go", "x/restaking/types/keys.go"],
  [("InsertUBDQueue, DequeueAllMatureUBDQueue", R + "alias_functions.go"),
   ("CompleteUnbonding", R + "unbond.go")],
  "Bounded histories: up to three undelegations and three blocks, symbolic times and amounts.",
  [("unbonding queue", "entries by completion time", R)],
  ["delegator balances after each end of block"])

P("C05", "A delegation is accepted exactly when it is admissible, exit always is",
  "A delegation is accepted exactly when the target exists and is active, every coin is allowed both by the chain and by the service, and the delegator owns the coins; ill-formed amounts are refused. A delegator can always undelegate what they delegated, and no more, whatever the target's status or the lists say now.",
  "inputs configurations histories",
  "every target kind and status, every combination of allow lists over three denoms, one or two coins of any amount",
  "Tests try a few list and status combinations; the guarantee spans their product and every amount.",
  [R + "msg_server.go", R + "pool_restaking.go", R + "operator_restaking.go", R + "service_restaking.go", R + "params.go"],
  [("DelegateToService checks status and denoms", R + "service_restaking.go"),
   ("IsDenomRestakable", R + "params.go")],
  "All statuses and list combinations by path enumeration, amounts symbolic up to 2^90.",
  observe=["message result", "balances", "delegation records"])

P("C06", "Only the entitled account can administer anything",
  "Every administrative message on an operator, service, its allow list, securing pools, rewards plans or commission succeeds for its current administrator and for nobody else; accreditation, assets and module parameters obey only the governance authority, and locked coins are minted and burned only by the listed minters and burners. A former administrator loses all access when ownership is transferred.",
  "inputs histories configurations",
  "every administrative message of every module sent by each of eleven accounts, before and after a transfer of ownership",
  "Tests try one stranger per message; the guarantee is about every account with some other role, and after transfers.",
  ["x/operators/keeper/msg_server.go", "x/services/keeper/msg_server.go", R + "msg_server.go", "x/rewards/keeper/msg_server.go", "x/liquidvesting/keeper/msg_server.go", "x/assets/keeper/msg_server.go"],
  [("sender compared with the administrator or authority in each handler", "x/*/keeper/msg_server.go")],
  "All listed messages times all roles, decided path by path on the real handlers.",
  observe=["message result"])

P("C07", "Administrative changes touch only what they name",
  "Editing, transferring, activating, deactivating, accrediting or parametrising an operator or service changes exactly the named attributes. Its identifier, account, recorded tokens, issued shares, delegations and every other operator and service stay as they were, whatever was delegated before.",
  "inputs histories",
  "every administrative message on an operator or service in every status with arbitrary delegations, every subset of edited fields",
  "Tests edit targets without delegations, so dropped fields go unseen.",
  ["x/operators/types/models.go", "x/services/types/models.go", "x/operators/keeper/msg_server.go", "x/services/keeper/msg_server.go"],
  [("Update", "x/operators/types/models.go, x/services/types/models.go")],
  "All messages, statuses and field subsets by path enumeration; delegations symbolic up to 2^90 in two denoms.",
  observe=["stored operator and service records"])

W = "x/rewards/keeper/"

P("C08", "Operators go through their life cycle on schedule and leave nothing behind",
  "A deactivated operator becomes inactive in the first block at or after the end of its own deactivation period, never sooner, whatever other operators do and however the period is changed or the operator reactivated meanwhile. Only an inactive operator can be deleted; afterwards no service lists it and nothing refers to it, and a service that had restricted itself to that operator is not thereby opened to all.",
  "histories schedules configurations",
  "two operators, any times and deactivation periods, reactivation, every combination of joined services and lists",
  "Tests run one operator through one schedule; stale queue entries, shared times and changed periods need particular schedules.",
  ["x/operators/keeper/operators.go", "x/operators/keeper/alias_functions.go", "x/operators/abci.go", R + "operators_hooks.go", R + "alias_functions.go"],
  [("inactivating queue", "x/operators/keeper/alias_functions.go"), ("BeginBlocker completes inactivations", "x/operators/abci.go"),
   ("AfterOperatorDeleted", R + "hooks.go")],
  "Two operators, two services, two blocks; times and periods symbolic over [0,2^50] ns.",
  [("inactivating queue", "operators by completion time", "x/operators/keeper")],
  ["operator status after each block", "joined services", "allowed operators"])

P("C09", "Service life cycle is sound and deletion cleans up completely",
  "A service is activated, deactivated and deleted only from the statuses meant for it; deleting one removes everything that refers to it, ends its rewards plans with their remaining funds returned, and leaves every other service, operator and pool untouched. No service action makes a later block fail. Joining, listing and borrowing take effect exactly when admissible and only on the pair named.",
  "histories configurations schedules",
  "every sequence of three life-cycle messages, every combination of links between two services and operators and pools, plans of any amount and window, blocks at any times",
  "Tests delete services without plans or with one link; leftovers and failing blocks show up only for particular combinations and times.",
  ["x/services/keeper/msg_server.go", "x/services/keeper/services.go", R + "hooks.go", R + "msg_server.go", W + "hooks.go", W + "rewards_plan.go"],
  [("AfterServiceDeleted", R + "hooks.go, " + W + "hooks.go"), ("TerminateEndedRewardsPlans", W + "rewards_plan.go")],
  "Up to three messages and three blocks; two services; amounts and times symbolic.",
  observe=["service status", "links of every pair", "plan funds", "block errors"])

P("C10", "Rewards go to the eligible delegators by rule and never exceed the plan",
  "Each block, what a plan allocates equals its daily amount scaled by the time passed, up to truncation, and never more. It goes only to eligible targets and denoms: active operators the service accepts, pools it borrows from with delegators that trust it, denoms both it and the chain allow. It is split by weight and value exactly as the distribution says, and operators get exactly their commission rate.",
  "inputs configurations",
  "every combination of eligibility of two operators or two pools, every denom list, distribution kind, weights, commission rates, tokens up to 2^40",
  "Tests compare a few hand-computed splits; over-allocation and misdirected rewards appear for particular lists, weights and amounts.",
  [W + "allocation.go", W + "target.go", "x/rewards/types/models.go"],
  [("AllocateRewardsByPlan", W + "allocation.go"), ("allocateRewards to operators, pools and users", W + "allocation.go")],
  "One plan, one block; two targets of a kind; tokens up to 2^40, all weights and rates symbolic.",
  observe=["outstanding rewards of each target", "accumulated commission", "rewards pool balances"])

P("C11", "Rewards plans run exactly in their window and never halt the chain",
  "A plan pays in a block only for the part of its window the block covers, the whole window is paid once, only from funds its own account holds, and nothing is paid after its end, when what is left returns to the service. Whatever plan is accepted, no later block fails because of it, and one plan's shortage or end does not affect another.",
  "inputs histories schedules",
  "plans with any amounts, windows, funds, filters, weights and distributions; blocks at any times; edits of a running plan",
  "Tests use a few plans on day boundaries; double payment, missed windows and failing blocks need particular times, amounts and funds.",
  [W + "allocation.go", W + "rewards_plan.go", W + "msg_server.go", "x/rewards/types/models.go"],
  [("AllocateRewards", W + "allocation.go"), ("TerminateEndedRewardsPlans", W + "rewards_plan.go")],
  "One or two plans, up to four blocks; times symbolic over [0,2^50] ns, amounts up to the accepted maximum.",
  observe=["balances of plan pools, rewards pool and service", "block errors", "stored plans"])

P("C12", "Everyone is paid what their shares earned, once, and the funds are there",
  "A delegator who withdraws is paid the rewards their shares earned since they last did, up to rounding down: no more, nothing twice, nothing for the time before they joined, whatever others do and in whatever order they withdraw. The operator's commission is paid to the address its admin chose and the rest to the delegators. Modifying, leaving or deleting does not forfeit earned rewards.",
  "inputs histories",
  "any split of a target between two users with rewards up to 2^90, joins, increases, exits, withdrawals in every order, any commission rate, deletion of operators and services",
  "Tests withdraw round amounts in one order; rounding, ordering and deletion with unclaimed rewards go untested.",
  [W + "delegation.go", W + "target.go", W + "withdraw.go", W + "hooks.go", W + "services_hooks.go", W + "alias_functions.go"],
  [("withdrawDelegationRewards", W + "delegation.go"), ("IncrementDelegationTargetPeriod", W + "target.go"), ("clearDelegationTarget", W + "target.go")],
  "Two users and one who joins later, one target, up to two allocations; either the split or the rewards symbolic, the other from a list.",
  observe=["users' balances", "outstanding rewards", "rewards pool balance"])

P("C13", "A pool's counted shares for a service are those of users who trust it",
  "For every pool and service the total the rewards are split by is the shares of exactly the pool's delegators who trust the service, after any change of preferences, accreditation, services or delegations. So nobody's rewards are diluted by those who do not trust the service, and no delegator is ever unable to leave the pool.",
  "histories configurations",
  "two users with any preferences, two services of any accreditation, secured or not, changes of each kind and any amounts",
  "Tests change one preference of one user; the totals drift only for combinations of preferences, accreditation and lists.",
  [W + "hooks.go", W + "pool_service_shares.go", W + "services_hooks.go", W + "restaking_hooks.go", R + "msg_server.go", "x/restaking/types/models.go"],
  [("PoolServiceTotalDelegatorShares", W + "pool_service_shares.go"), ("IsServiceTrusted", "x/restaking/types/models.go")],
  "Two users, one pool, two services, one change of each kind; amounts up to 2^90.",
  [("PoolServiceTotalDelegatorShares", "shares per pool and service", W + "keeper.go")],
  ["counted shares per pool and service", "that every delegator can undelegate"])

L = "x/liquidvesting/"

P("C15", "Restaked locked coins are always covered by the owner's insurance fund",
  "In every state a user reaches, the insurance fund holds for every denom at least the required percentage of everything the user restaked or is unbonding in the locked representation. Restaking past that and withdrawing below it are refused, everything else is allowed, and what is withdrawn comes from that user's fund only. The module account holds exactly what all the funds say.",
  "inputs histories",
  "any funds, any amounts of two locked denoms restaked and unbonding across pools, operators and services, any restake or withdrawal",
  "Tests try round amounts at one percentage; the limit depends on rounding and on amounts in several targets and unbondings.",
  [L + "keeper/restake_restriction.go", L + "keeper/insurance_fund.go", L + "keeper/msg_server.go", L + "types/models.go"],
  [("RestakeRestrictionFn", L + "keeper/restake_restriction.go"), ("WithdrawInsuranceFund", L + "keeper/msg_server.go")],
  "Inductive step of a restake and of a withdrawal from any insured state, amounts up to 2^90, four percentages; histories of two or three messages.",
  [("insurance funds", "deposit per user", L + "keeper/keeper.go")],
  ["insurance funds", "module account balance", "delegations and unbonding entries"])

P("C16", "Locked representations are minted and burned only as authorised, exactly",
  "Only minters create locked representations and only burners destroy them. A mint creates exactly its amount. A burn succeeds exactly if the user has that much, liquid or restaked, wherever it is restaked and whatever else the user delegated; the restaked part is unbonded and destroyed when that ends, the user ends up with exactly that much less, and no end of block fails for it.",
  "inputs histories schedules",
  "any user holding any amounts liquid, in a pool, an operator and a service, beside native coins and other users; any burns, undelegations and changes of the unbonding time at any times",
  "Tests burn from one delegation; a burn spread over targets, several burns in the queue and parameter changes go untested.",
  [L + "keeper/msg_server.go", L + "keeper/mint.go", L + "keeper/burn.go", L + "keeper/end_blocker.go", R + "alias_functions.go"],
  [("BurnLockedRepresentation", L + "keeper/burn.go"), ("UnbondRestakedAssets", R + "alias_functions.go")],
  "One or two burns; amounts up to 2^90, times up to 2^50 ns; one delegation of the denom in up to three targets.",
  [("burn queue", "restaked coins to burn when unbonded", L + "keeper/burn.go")],
  ["balances and supply of locked denoms", "delegations", "end block errors"])

P("C18", "Locked representations only move between their owner and a target",
  "Coins of a locked denom can be sent only from an account to a pool, operator or service or back, or by the liquid vesting module; never between two accounts, between targets or to other modules, whatever other coins travel with them. Transfers of other coins are not affected, except that targets cannot pay each other.",
  "inputs configurations",
  "any pair of accounts of every kind, existing and deleted targets, and any mixture of denoms and amounts",
  "Tests list some pairs with a single denom; the rule must hold for every pair and mixture.",
  [L + "keeper/send_restriction.go", L + "types/denom.go"],
  [("SendRestrictionFn", L + "keeper/send_restriction.go")],
  "One transfer of up to three denoms with amounts up to 2^90.",
  [], ["whether a transfer is refused", "balances"])

P("C19", "An IBC deposit credits the funds exactly what the module received",
  "A packet deposits into insurance funds only when it comes from a trusted sender over an allowed channel, is received by the module and its amounts add up to the transferred amount; then each fund grows by its amount in the coins that were actually received. Any other deposit, and every malformed one, is answered with an error, changes nothing and panics nowhere; other packets pass through untouched.",
  "inputs configurations",
  "any amounts, up to three depositors, coins native to either side or returning, trusted or other senders and channels, malformed memos of every shape",
  "Tests send vouchers with well formed memos; returning coins, repeated depositors and malformed memos go untested.",
  [L + "keeper/ibc.go", L + "ibc_module.go", L + "types/ibc_hooks.go"],
  [("OnRecvPacket", L + "keeper/ibc.go"), ("containsMsgDepositInsurance", L + "ibc_module.go")],
  "One packet with up to three depositors; amounts up to 2^90. The transfer application is a stand-in that credits the packet's receiver as ICS-20 says.",
  [], ["acknowledgement", "insurance funds", "module balance"])

P("C24", "Coin values follow the registered asset and the oracle's quote",
  "The value of a coin is its amount at the price quoted for the ticker of its registered asset, scaled by the asset's exponent, for every exponent and every number of decimals a market may have; it is zero, and never an error, when the asset is not registered or has no quote. The asset found by denom and those found by ticker are always what was last registered, and only the authority changes them.",
  "inputs histories configurations",
  "any quote up to 2^80 and amount up to 2^90, exponents and decimals up to 36, assets with no market or no quote, and any three registrations and removals",
  "Tests use a price of a few digits, 6 or 18 decimals, and assets that all have a quote.",
  [W + "oracle.go", "x/assets/keeper/assets.go", "x/assets/keeper/msg_server.go", "x/assets/types/models.go"],
  [("GetAssetAndPrice", W + "oracle.go"), ("SetAsset", "x/assets/keeper/assets.go")],
  "One coin; quotes up to 2^80, amounts up to 2^90; three registry operations on two denoms and two tickers.",
  [("assets by ticker", "index of denoms", "x/assets/keeper/keeper.go")],
  ["GetCoinValue", "asset queries"])

P("C21", "An exported state starts an equivalent chain",
  "In every reachable state in which every insurance fund covers what it must, the genesis exported by each module is valid, initialising a chain from it succeeds without panicking, and the new chain is in the same state: the same entities, parameters, delegations, unbondings, preferences, rewards accounting, assets and funds, passing every invariant.",
  "histories configurations",
  "a state with every kind of record, then any one or two of twenty changes (creations, deletions, parameter and preference changes, delegations, undelegations, withdrawals, allocations, edits, deposits), with any amounts",
  "Tests export hand-made states of single modules; records left behind by histories, and those that depend on other modules, go untested.",
  [R + "genesis.go", W + "genesis.go", L + "keeper/genesis.go", "x/services/keeper/genesis.go", "x/operators/keeper/genesis.go", "x/pools/keeper/genesis.go", "x/assets/keeper/genesis.go",
   "x/restaking/types/genesis.go", "x/rewards/types/genesis.go"],
  [("InitGenesis", R + "genesis.go"), ("ExportGenesis", W + "genesis.go")],
  "One rich state, every pair of the changes; amounts up to 2^90. The unbonding ID index, which nothing reads, is exempt.",
  [], ["every store of every module before and after", "validation of the exported genesis"])

P("C27", "Queries answer exactly what the state says",
  "Every listing holds exactly the records of the target, user, service, operator or ticker asked for, once each, in pages of any size; every lookup finds a record exactly while it exists. A delegation's balance is what it can undelegate, the rewards answered are what withdrawing then pays, the operators of a service are those who may validate it, and what is answered as used or restakable of an insurance fund is what limits withdrawals and restakes.",
  "histories inputs configurations",
  "two users with no, whole, partly or wholly unbonding delegations to two targets of each kind, every combination of joins and lists, deleted records, any rewards and funds, pages of one, two or more",
  "Tests query a fixture that has records of one target only, where a filter that is missing or mistaken cannot show.",
  [R + "grpc_query.go", W + "grpc_query.go", L + "keeper/grpc_query.go", "x/operators/keeper/grpc_query.go", "x/services/keeper/grpc_query.go", "x/pools/keeper/grpc_query.go", "x/assets/keeper/grpc_query.go"],
  [("PoolUnbondingDelegations", R + "grpc_query.go"), ("ServiceOperators", R + "grpc_query.go")],
  "Two users and two targets (three of the registries); page sizes 1 and 2 (thorough: 100); amounts up to 2^90. Forward listings by key.",
  [], ["responses of every query of the seven modules but the parameters"])

P("C14", "Reward ledgers add, subtract and truncate exactly",
  "The ledgers in which rewards are kept (per denom, per service) are exact: the sum, difference and intersection of any two have the right amount of every reward of every denom and service, in canonical order and without empty entries, taking more than there is is always noticed, what is paid out and what remains after truncation add up to what there was, every amount is found by a lookup, and the operands stay as they are.",
  "inputs configurations",
  "any pairs of ledgers over the stated denoms, rewards and services, any of which may be absent, and any amounts up to 10^40 in 18 decimals",
  "Tests add a few literals; the merging loops have a branch per order of denoms and a special case for every amount that cancels out.",
  ["x/rewards/types/pool.go", "x/rewards/types/dec_pool.go", "x/rewards/types/service_pool.go"],
  [("DecPools.safeAdd", "x/rewards/types/dec_pool.go"), ("ServicePools.safeAdd", "x/rewards/types/service_pool.go"), ("DecPools.TruncateDecimal", "x/rewards/types/dec_pool.go")],
  "Two denoms with two rewards or three with one; up to three services. cosmos-sdk's coins and decimals are executed, not assumed.",
  [], ["results of the operations of the three types"])

P("C20", "Creating an object gives a fresh identifier and costs exactly the fee",
  "An operator, service, plan or pool gets an identifier and accounts that no other has or ever had, whatever was created, refused or deleted before, and the next one is not affected by refusals. A creation is accepted exactly if the fee offered covers what the parameters require in one of the denoms and the user has it; then exactly what is offered goes from the user to the community pool, else nothing changes. There is at most one pool per denom.",
  "histories inputs configurations",
  "three creations of each kind with deletions and refusals between, counters around the changes of encoding, any required and offered fees in up to two denoms and any balances, five delegations to pools of three denoms",
  "Tests create one or two objects in a row with one fixed fee, so counters that are reused after a deletion, or a fee in the second denom, do not show.",
  ["x/services/keeper/msg_server.go", "x/operators/keeper/msg_server.go", W + "rewards_plan.go", "x/pools/keeper/alias_functions.go"],
  [("CreateService", "x/services/keeper/msg_server.go"), ("RegisterOperator", "x/operators/keeper/msg_server.go"), ("CreateRewardsPlan", W + "rewards_plan.go"), ("CreateOrGetPoolByDenom", "x/pools/keeper/alias_functions.go")],
  "Three creations (pools: five delegations; thorough: more) from six counters up to 2^32-10; amounts up to 2^90.",
  [("next identifiers", "the counter each kind of object is numbered from", "x/services/keeper/keeper.go")], ["new records", "community pool balance", "errors of creations"])

P("C23", "Votes need stake and expedited proposals are upgrades, however they are sent",
  "No vote of any form enters a block without the minimum stake behind it, and no expedited proposal that does anything but upgrade the chain or cancel an upgrade, whether the message is alone, after others or executed on behalf of another; every other transaction passes these checks. The chain's own sequence of transaction checks has them, for new and for rechecked transactions.",
  "inputs configurations histories",
  "up to three delegations of any size to validators slashed by any amount, any of four forms of vote, proposals of up to two of the known actions, alone, after others and inside up to two layers of execution",
  "Tests check each decorator with one direct message; that other forms of the same vote, or a message within a message, get past it is not in them.",
  ["ante/gov_vote_ante.go", "ante/gov_expedited_ante.go", "ante/ante.go"],
  [("ValidateVoteMsgs", "ante/gov_vote_ante.go"), ("validateExpeditedGovProp", "ante/gov_expedited_ante.go"), ("NewAnteHandler", "ante/ante.go")],
  "Up to three delegations (the decorator looks at 100 at most); two layers of execution; the staking keeper is a stand-in with symbolic tokens.",
  [], ["errors of the decorators and of the whole handler"])

P("C26", "Every node computes the same state",
  "What a block does depends on the state and the block alone: two nodes on which maps are iterated in another order, the clock shows another time and random numbers are others agree, after every message and block, on whether it succeeds, on every store of every module and every balance, and export the same state.",
  "schedules histories inputs",
  "the order of every map iterated (one and its reverse), wall clock and random numbers, over blocks that allocate to three targets of each kind for two plans in all the ways there are, any delegation, and each of the 20 changes of C21",
  "A test runs on one node once; a map of two entries comes in the same order half of the time, and the clock is never checked.",
  ["x/rewards/types/pool.go", W + "allocation.go", R + "alias_functions.go", L + "keeper/genesis.go"],
  [("Pools.safeAdd", "x/rewards/types/pool.go"), ("allocateRewardsWeighted", W + "allocation.go"), ("GetAllOperatorsJoinedServices", R + "alias_functions.go")],
  "Two nodes, of which the second iterates in the opposite order. Goroutines are not used by the code; gas and events are not compared.",
  [], ["all stores of the seven modules", "balances", "exported states", "errors"])

P("C28", "An account is the same however its address is spelled",
  "An account written in capital letters, which is a valid spelling of the same address, is either refused or treated exactly as the same account: no message can create a second delegation, fund, preference or right under another spelling of an address, nor get around a rule by it.",
  "inputs histories",
  "26 messages of the modules and IBC deposits with any amount, with the account in either spelling, on a chain on which most things have happened",
  "Tests write every address in the one way String gives it.",
  [R + "msg_server.go", "x/restaking/types/messages.go", "x/operators/types/messages.go", "x/services/types/messages.go", "x/rewards/types/messages.go", L + "types/ibc_hooks.go", L + "types/messages.go"],
  [("MsgDelegatePool.ValidateBasic", "x/restaking/types/messages.go"), ("InsuranceDeposit", L + "types/ibc_hooks.go")],
  "The two spellings bech32 allows; one message on a chain prepared by about 40 others.",
  [], ["state of both chains", "errors"])
