"""What is claimed about each property: the source of properties.jsonl and MANIFEST.json
(tools/manifest.py writes both)."""

P = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), technique=None, note=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                 anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {})},
                 technique=technique, note=note)


NA = {}

CORE = "contracts/dao-dao-core/src/contract.rs"
SINGLE = "contracts/proposal/dao-proposal-single/src/contract.rs"
MULTI = "contracts/proposal/dao-proposal-multiple/src/contract.rs"
COND = "contracts/proposal/dao-proposal-condorcet/src/contract.rs"

prop("C01", "Only entitled callers can act on a DAO's core, and a paused DAO stays paused",
     "Every operation of the DAO's core succeeds only for the caller entitled to it: running messages as the DAO needs an enabled proposal module, administrative changes need the DAO itself, admin operations need the admin or the nominated admin; each changes only what the operation is for, to the value that was asked for. While the DAO is paused and the pause has not expired, nothing succeeds for anyone but the DAO itself and its admin, and pausing is in the hands of those alone. Messages relayed for a proposal module or the admin go out exactly as given, once and in order.",
     ["inputs", "histories", "configurations"],
     "every caller, message, stored state and block",
     "Tests call each operation as one stranger or two; a path on which the check is skipped, applied to the wrong stored address, or inverted for one variant or one pause state is not among them.",
     [CORE, "contracts/dao-dao-core/src/state.rs"],
     [("execute dispatch and pause gate", CORE + " execute"), ("admin and self checks", CORE + " execute_* handlers")],
     [("PAUSED", "expiration of the pause", "contracts/dao-dao-core/src/state.rs"), ("ADMIN / NOMINATED_ADMIN", "the admin and its nominated successor", "contracts/dao-dao-core/src/state.rs")])

prop("C02", "A DAO's module registry and counters stay true, an active module always left",
     "The DAO's proposal-module registry, its active and total counters and its voting module change only by instantiation replies and by a module update the DAO itself makes. A newly adopted module enters enabled and counts once in both counters; a disabled one must have been enabled and leaves the active counter once; an update that would leave no active module fails. The voting module is recorded at creation and replaced only by an update that asks for it.",
     ["inputs", "histories", "fault_sequences"],
     "every sequence of module updates and instantiation replies, with any list of modules",
     "Tests disable and add one or two modules; a miscount shows only for a particular mix of added and disabled modules or a reply arriving in a different order.",
     [CORE],
     [("module update", CORE + " execute_update_proposal_modules / execute_update_voting_module"), ("instantiate replies", CORE + " reply")],
     [("PROPOSAL_MODULES", "module records by address", "contracts/dao-dao-core/src/state.rs"), ("ACTIVE/TOTAL_PROPOSAL_MODULE_COUNT", "number of enabled / adopted modules", "contracts/dao-dao-core/src/state.rs")])

prop("C03", "Only passed proposals execute, once, and with exactly their own messages",
     "In each proposal module an execution succeeds only when the proposal has passed under its stored terms (or its vetoer executes it early in an open veto window that allows this) and, if only members may execute, the caller has voting power. It records the proposal as executed so that it cannot execute again, and hands the DAO exactly the stored messages (of the winning choice), in order and once; no other operation hands messages to the DAO. When execution fails, only that proposal is marked failed, and only where its configuration closes failed proposals.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "every proposal, tally, configuration, caller, block and execution result",
     "Tests execute proposals of ordinary shape; a status gate that lets one extra state through, a second execution or altered messages for one choice shows only in particular combinations of status, veto window and configuration.",
     [SINGLE, MULTI, COND],
     [("execute handler and its status gate", SINGLE + " execute_execute"), ("failed-execution reply", SINGLE + " reply")],
     [("PROPOSALS", "stored proposals with their status", "contracts/proposal/*/src/state.rs")])

prop("C04", "One ballot per member, weighed by the snapshot; tallies are the sum of ballots",
     "A vote succeeds only before the proposal's expiration and for a voter with non-zero voting power at the proposal's start height; a member who has voted can only replace the vote, only where the proposal allows it and only by a different one. The stored ballot carries exactly that power and vote, and the tally changes by exactly that power after the replaced ballot's weight was removed from its option. Nothing else writes ballots, changes a tally, or changes the stored terms of a proposal.",
     ["inputs", "histories", "configurations"],
     "every sequence of votes and re-votes by any voters on any proposal",
     "Tests vote a handful of times; double counting, a weight taken from the wrong option on a re-vote, or the power of the wrong height need particular sequences.",
     [SINGLE, MULTI, COND, "packages/dao-voting/src/voting.rs", "packages/dao-voting/src/multiple_choice.rs", "contracts/proposal/dao-proposal-condorcet/src/tally.rs"],
     [("vote handler", SINGLE + " execute_vote"), ("tally update", "packages/dao-voting/src/voting.rs Votes::add_vote / remove_vote"), ("pairwise tally", "contracts/proposal/dao-proposal-condorcet/src/tally.rs Tally::add_vote")],
     [("BALLOTS", "ballot by proposal and voter", "contracts/proposal/*/src/state.rs")])

prop("C05", "A proposal's outcome is the one its threshold and tally determine",
     "The status reported by every query and stored by every vote is, for every tally, configuration and block, the one the proposal's threshold, quorum, expiration, minimum voting period and veto timelock determine: percentages are compared without rounding in anyone's favour, ties and 'none of the above' never pass, nothing passes before the minimum voting period or while re-voting is open, and an early pass or rejection is declared only when remaining votes cannot overturn it. A decided status never reverts to open.",
     ["inputs", "configurations", "histories"],
     "all tallies, thresholds, quorums, total powers, configurations and block times",
     "Tests tabulate some dozens of tallies and percentages; boundary tallies (exact ties, exactly the threshold, quorum counted with abstentions) and combinations of re-voting, minimum period and veto form a product that is not tabulated.",
     ["contracts/proposal/dao-proposal-single/src/proposal.rs", "contracts/proposal/dao-proposal-multiple/src/proposal.rs", "contracts/proposal/dao-proposal-condorcet/src/proposal.rs", "packages/dao-voting/src/voting.rs"],
     [("status computation", "contracts/proposal/dao-proposal-single/src/proposal.rs current_status / is_passed / is_rejected"), ("threshold comparison", "packages/dao-voting/src/voting.rs does_vote_count_pass / compare_vote_count"), ("winner of a multiple-choice vote", "contracts/proposal/dao-proposal-multiple/src/proposal.rs calculate_vote_result"), ("Condorcet winner", "contracts/proposal/dao-proposal-condorcet/src/tally.rs winner")])

prop("C06", "Only rejected proposals close; only the vetoer vetoes, only in the veto window",
     "A proposal closes only when its outcome is rejection, and is vetoed only by its configured vetoer, while it is open (where early veto is enabled) or inside its unexpired veto window. Either stores the terminal state on that proposal alone, so an executed, closed or vetoed proposal can be neither closed nor vetoed again. A proposal carries the veto configured when it was created, and a veto is configured only with a valid vetoer and a timelock in the unit of the voting period.",
     ["inputs", "histories", "configurations"],
     "every proposal state, caller, veto configuration and block",
     "Tests try a few wrong states; each of the eight statuses combined with expired or running timelocks and early-veto settings is not enumerated.",
     [SINGLE, MULTI, COND, "packages/dao-voting/src/veto.rs"],
     [("close handler", SINGLE + " execute_close"), ("veto handler", SINGLE + " execute_veto"), ("veto checks", "packages/dao-voting/src/veto.rs VetoConfig")])

prop("C07", "Proposals come only from permitted creators and carry the configured terms",
     "A proposal is created only by someone the module lets create it (anyone acting for themselves where creation is open, otherwise the configured pre-propose module naming a valid proposer; a holder of voting power in ranked-choice voting), and only while the DAO is active. It gets the next unused id and stores the proposed content, the configured threshold, re-voting rule, voting periods and close rule, the current height as its snapshot, the DAO's total power at that snapshot and an empty tally. Multiple-choice proposals hold two to twenty proposed options followed by an empty 'none of the above', and no stored proposal exceeds the size limit.",
     ["inputs", "histories", "configurations"],
     "every creator, creation policy, configuration, proposal content and block",
     "Tests create well-formed proposals; terms copied from the wrong configuration field, an id reused after a particular history or a policy bypass by naming a proposer need specific inputs.",
     [SINGLE, MULTI, COND, "packages/dao-voting/src/multiple_choice.rs", "packages/dao-voting/src/pre_propose.rs"],
     [("propose handler", SINGLE + " execute_propose"), ("creation policy", "packages/dao-voting/src/pre_propose.rs ProposalCreationPolicy::is_permitted"), ("option checks", "packages/dao-voting/src/multiple_choice.rs MultipleChoiceOptions::into_checked")])

prop("C09", "Every hook hears every event truthfully, and a failing hook harms only itself",
     "Every proposal creation, vote and change of a stored status is announced to each registered subscriber with the true proposal, voter, vote and statuses, and every execution, closing and veto to the pre-propose module; a status that did not change is not announced. Each announcement is sent so that its failure does not undo the operation and removes only the failing subscriber (a failing pre-propose module opens proposal creation to anyone instead). Only the DAO registers and removes subscribers; registering adds one new subscriber, removing takes away just that one.",
     ["inputs", "histories", "fault_sequences"],
     "every operation, any list of subscribers, and every pattern of a failing subscriber",
     "Tests register one hook and watch one event; a missing announcement on one path, a stale old status or an unguarded message shows only for particular statuses or failing subscribers.",
     [SINGLE, MULTI, "packages/dao-hooks/src/proposal.rs", "packages/dao-hooks/src/vote.rs", "packages/cw-hooks/src/lib.rs", "packages/dao-voting/src/reply.rs"],
     [("announcements", "packages/dao-hooks/src/proposal.rs, vote.rs"), ("hook replies", SINGLE + " reply"), ("registry", "packages/cw-hooks/src/lib.rs Hooks")],
     [("PROPOSAL_HOOKS / VOTE_HOOKS", "registered subscribers", "contracts/proposal/*/src/state.rs"), ("CREATION_POLICY", "who may create proposals", "contracts/proposal/*/src/state.rs")])

PRE = ["packages/dao-pre-propose-base/src/execute.rs", "packages/dao-voting/src/deposit.rs", "contracts/pre-propose/dao-pre-propose-single/src/contract.rs", "contracts/pre-propose/dao-pre-propose-multiple/src/contract.rs", "contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs", "contracts/pre-propose/dao-pre-propose-approver/src/contract.rs"]

prop("C10", "Deposits are taken, snapshotted and returned exactly as the policy says",
     "Submitting a proposal through a pre-propose module succeeds only for someone the submission policy admits, takes exactly the configured deposit from that sender, and files deposit and proposer under the id the proposal gets. When the proposal completes, exactly that deposit is sent, only to the proposer or to the DAO as the filed refund policy and the final status decide. Anything else a pre-propose module holds leaves only to the DAO, at the DAO's word, and only the DAO changes the configuration.",
     ["inputs", "histories", "configurations"],
     "every submitter, policy, deposit configuration (native or token), refund policy and final status, over any sequence of configuration changes",
     "Tests use one deposit at a time; a deposit returned under a configuration changed after submission, a wrong recipient for one final status or a payment short by an unusual amount needs particular histories.",
     PRE[:4],
     [("submission and completion", "packages/dao-pre-propose-base/src/execute.rs"), ("deposit messages", "packages/dao-voting/src/deposit.rs CheckedDepositInfo")],
     [("DEPOSITS", "deposit and proposer by proposal id", "packages/dao-pre-propose-base/src/state.rs")])

prop("C11", "Approval: submissions wait, are answered once, and forwarded unchanged",
     "A submission to an approval module waits under a fresh approval id with its proposer and deposit; only the configured approver approves or rejects it, and only once. Approving proposes exactly the stored content for the stored proposer and re-files the deposit under the id it gets; rejecting settles the deposit by its refund policy. The approver contract opens one message-less proposal per submission and answers it with that proposal's outcome, whatever its final status.",
     ["inputs", "histories", "configurations"],
     "every submission, approver, sequence of approvals and rejections, and final status of the approving proposal",
     "Tests walk the happy approvals; a submission answered twice, changed content or an outcome that is never answered (such as a veto) needs particular sequences.",
     PRE[4:] + PRE[:2],
     [("approval and rejection", PRE[4] + " execute_approve / execute_reject"), ("approver's proposals and answers", PRE[5] + " execute_propose / execute_proposal_completed")],
     [("PENDING_PROPOSALS", "submissions waiting for approval", "contracts/pre-propose/dao-pre-propose-approval-single/src/state.rs")])

prop("C12", "Token stakes are credited, released and paid exactly, to the staker alone",
     "Staking credits the sender with exactly the tokens received, priced at the pool's current ratio; unstaking takes exactly the asked stake off the books and pays (or, with an unstaking duration, records as a claim maturing that much later) exactly what it is worth to that staker; claiming pays exactly the matured claims. Per-account and total stakes always move together by the same amount, filed under the current height, and no one moves another's stake. Every subscriber hears each change; only the owner or DAO changes the unstaking duration and the subscribers.",
     ["inputs", "histories"],
     "every staker, amount, pool ratio, unstaking duration and sequence of operations",
     "Tests stake round amounts in fixed orders; a rounding in the staker's favour, a total that drifts from its parts or a claim paid early appears only for particular ratios and sequences.",
     ["contracts/staking/cw20-stake/src/contract.rs", "contracts/voting/dao-voting-token-staked/src/contract.rs", "packages/dao-hooks/src/stake.rs"],
     [("cw20 staking", "contracts/staking/cw20-stake/src/contract.rs execute_stake / execute_unstake / execute_claim"), ("native staking", "contracts/voting/dao-voting-token-staked/src/contract.rs execute_stake / execute_unstake / execute_claim")],
     [("STAKED_BALANCES / STAKED_TOTAL / BALANCE", "the books", "contracts/staking/cw20-stake/src/state.rs")])

prop("C13", "A staked NFT belongs to who staked it and returns to them alone",
     "An NFT is recorded as staked only for the one who sent it to the staking module (or, for collections without receive hooks, who prepared it while owning it and then transferred it), and leaves the books only when that staker unstakes it. Per-account and total counts move with it, under the current height. Unstaked NFTs go back to that staker only, and, with an unstaking duration, only as claims maturing that much later, each claim paid once.",
     ["inputs", "histories"],
     "every staker, collection, list of token ids (repeated ids included) and sequence of staking operations",
     "Tests stake distinct tokens; duplicate ids in one call, somebody else's token id or cancelling another's preparation need particular inputs.",
     ["contracts/voting/dao-voting-cw721-staked/src/contract.rs", "contracts/voting/dao-voting-onft-staked/src/contract.rs", "packages/cw721-controllers/src/nft_claim.rs"],
     [("NFT staking", "contracts/voting/dao-voting-cw721-staked/src/contract.rs"), ("ONFT staking", "contracts/voting/dao-voting-onft-staked/src/contract.rs"), ("claims", "packages/cw721-controllers/src/nft_claim.rs")],
     [("STAKED_NFTS_PER_OWNER / NFT_BALANCES / TOTAL_STAKED_NFTS", "the books", "contracts/voting/dao-voting-cw721-staked/src/state.rs")])

prop("C14", "Voting power queries answer for the height asked",
     "Every voting module and staking contract answers a voting-power or total-power query for the height asked (the current block when none is given) with what was recorded at that height, zero where nothing was, and says which height it answered for; modules that rely on another contract, and the DAO itself, relay that contract's answer for the same account and height. Recordings are only ever filed under the current block, so an answer about the past never changes.",
     ["inputs", "histories"],
     "every account, height and history of stakes",
     "Tests ask a few heights around one change; an answer that uses today's stake for a past height, or a recording filed under another height, shows only for particular heights.",
     ["contracts/voting/dao-voting-token-staked/src/contract.rs", "contracts/voting/dao-voting-cw20-staked/src/contract.rs", "contracts/voting/dao-voting-cw721-staked/src/contract.rs", "contracts/voting/dao-voting-onft-staked/src/contract.rs", "contracts/voting/dao-voting-cw4/src/contract.rs", "contracts/voting/dao-voting-cw721-roles/src/contract.rs", "contracts/staking/cw20-stake/src/contract.rs", "contracts/external/cw721-roles/src/contract.rs", "contracts/dao-dao-core/src/contract.rs"],
     [("power queries", "contracts/voting/*/src/contract.rs query_voting_power_at_height / query_total_power_at_height"), ("staking queries", "contracts/staking/cw20-stake/src/contract.rs query_staked_balance_at_height"), ("relay", "contracts/dao-dao-core/src/contract.rs query_voting_power_at_height")])

prop("C15", "A module is active exactly when current stakes reach its threshold",
     "A voting module without an active threshold is always active; with one it is active exactly when what is staked now reaches the absolute count, or the percentage of the token's current supply rounded up (never, for NFTs, with nothing staked). Only the DAO changes or removes the threshold, and a threshold is stored only if it is a percentage above 0 and up to 100%, or a count that is neither zero nor above the supply of the existing or module-created token.",
     ["inputs", "histories", "configurations"],
     "every threshold, supply, amount staked and caller",
     "Tests try a handful of supplies and percentages; off-by-one at the exact threshold, rounding, and unchecked values along one of the several creation paths need particular numbers.",
     ["contracts/voting/dao-voting-token-staked/src/contract.rs", "contracts/voting/dao-voting-cw20-staked/src/contract.rs", "contracts/voting/dao-voting-cw721-staked/src/contract.rs", "contracts/voting/dao-voting-onft-staked/src/contract.rs", "packages/dao-voting/src/threshold.rs"],
     [("activity queries", "contracts/voting/*/src/contract.rs query_is_active"), ("threshold update", "contracts/voting/*/src/contract.rs execute_update_active_threshold"), ("threshold validity", "packages/dao-voting/src/threshold.rs")],
     [("ACTIVE_THRESHOLD", "the configured threshold", "contracts/voting/*/src/state.rs")])

prop("C20", "Factories create what was asked, for whom it may be, under its rightful control",
     "The payroll factory lets only its owner create vesting when it has one, funds each vesting contract with exactly the tokens received for it (which must equal the schedule's total), and lists it under its creator and recipient. The admin factory makes every contract it creates its own admin, rejecting an address other than the predicted one. The fan-token factory issues the token for the caller's DAO alone: the initial balances are minted as asked and minting and authority end with the DAO.",
     ["inputs", "configurations"],
     "every caller, owner setting, schedule, fund amount, salt and token description",
     "Tests create a contract or two by the happy path; a partial funding, a wrong admin on one of the creation paths or an address mismatch needs particular inputs or a hostile created contract.",
     ["contracts/external/cw-payroll-factory/src/contract.rs", "contracts/external/cw-admin-factory/src/contract.rs", "contracts/external/btsg-ft-factory/src/contract.rs"],
     [("payroll factory", "contracts/external/cw-payroll-factory/src/contract.rs"), ("admin factory", "contracts/external/cw-admin-factory/src/contract.rs"), ("fan-token factory", "contracts/external/btsg-ft-factory/src/contract.rs")])

prop("C21", "A token swap gives both sides what was agreed, or each their own back",
     "Each side of a swap can be provided only by the named counterparty, in its own token, in exactly the promised amount, and once. When the second side arrives the swap completes: each side's tokens go to the other side and nowhere else, once. Until then a counterparty can withdraw only what it provided itself.",
     ["inputs", "histories"],
     "every caller, amount, token and order of provisions and withdrawals",
     "Tests do one swap per token kind; the same counterparty on both sides, a wrong token of the right amount, or a withdrawal after completion needs particular sequences.",
     ["contracts/external/cw-token-swap/src/contract.rs", "contracts/external/cw-token-swap/src/types.rs"],
     [("swap", "contracts/external/cw-token-swap/src/contract.rs")],
     [("COUNTERPARTY_ONE / COUNTERPARTY_TWO", "what each side promised and provided", "contracts/external/cw-token-swap/src/state.rs")])

prop("C18", "Fund distributor pays each member exactly its share, once",
     "Everything paid in while funding is open is recorded in full to the token it came in; nothing is taken in later and nothing is claimed before. A claim pays the claimant, for every token asked for, its share (its voting power over the total, both at the distribution height) of what was funded, rounded down, less all it claimed before, and records it. Redistribution, by migration only, lowers each balance by exactly what was claimed of it, clears the claims and takes shares at the new height.",
     ["inputs", "histories"],
     "every funding, member, voting power history, distribution height, token list and sequence of claims and redistributions",
     "Tests instantiate at the current height with constant power and claim in simple orders; a share taken of another height's total, a claim forgotten, or a repeated token in one call needs particular histories.",
     ["contracts/distribution/cw-fund-distributor/src/contract.rs"],
     [("funding", "contracts/distribution/cw-fund-distributor/src/contract.rs execute_fund_cw20 / execute_fund_native"), ("claims", "contracts/distribution/cw-fund-distributor/src/contract.rs get_cw20_claim_wasm_messages / get_native_claim_bank_messages"), ("redistribution", "contracts/distribution/cw-fund-distributor/src/contract.rs execute_redistribute_unclaimed_funds")],
     [("CW20_BALANCES / NATIVE_BALANCES / CW20_CLAIMS / NATIVE_CLAIMS", "what was funded and what was claimed", "contracts/distribution/cw-fund-distributor/src/state.rs")])

prop("C17", "Staking rewards accrue by stake and time, and are paid once",
     "A staker's pending external rewards grow by its stake times the rise of the reward per staked token, which rises by the reward rate per block while the reward period runs, and are brought up to date before its stake changes or anything is paid; a claim pays exactly what is pending, once, to the claimant. Only the owner funds, in the reward token, and only when no period runs, at the rate paid-in over duration. The reward distributor sends the staking pool its rate times the blocks since its last payment (or all it holds, if less), never twice for a block, and only its owner configures it or withdraws.",
     ["inputs", "histories"],
     "every stake, funding, rate, duration, block sequence and order of stake changes, claims and payments",
     "Tests run a few stakers at fixed rates; a stake change that is not accounted for first, a period end overstepped or a block paid twice shows only for particular histories.",
     ["contracts/staking/cw20-stake-external-rewards/src/contract.rs", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs"],
     [("accrual", "contracts/staking/cw20-stake-external-rewards/src/contract.rs update_rewards / get_reward_per_token / get_rewards_earned"), ("funding and claims", "contracts/staking/cw20-stake-external-rewards/src/contract.rs execute_fund / execute_claim"), ("distributor", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs")],
     [("PENDING_REWARDS / REWARD_PER_TOKEN / USER_REWARD_PER_TOKEN / LAST_UPDATE_BLOCK", "the reward books", "contracts/staking/cw20-stake-external-rewards/src/state.rs")])

prop("C08", "A proposal module's rules are the DAO's to change and always workable",
     "Only the DAO a proposal module serves changes its rules or its pre-propose module, and they become exactly what was asked for; nothing else does. Every set of rules it stores, on creation, change or upgrade, has thresholds above 0 and up to 100% (quorums up to 100%), a minimum voting period in the units of and no longer than the voting period, and a veto timelock in the same units. Upgrading from v1 keeps the rules and every proposal as they were.",
     ["inputs", "histories", "configurations"],
     "every caller, configuration, pre-propose module, and stored v1 state",
     "Tests reject a few bad configurations on one path; an unchecked combination (a quorum in one threshold kind, mismatched units, a veto given at upgrade) or a field dropped at upgrade is not among them.",
     [SINGLE, MULTI, COND, "contracts/proposal/dao-proposal-condorcet/src/config.rs", "packages/dao-voting/src/threshold.rs", "packages/dao-voting/src/voting.rs", "packages/dao-voting/src/veto.rs", "packages/dao-voting/src/pre_propose.rs"],
     [("rules update", "contracts/proposal/*/src/contract.rs execute_update_config / execute_set_config"), ("validity", "packages/dao-voting/src/threshold.rs Threshold::validate; voting.rs validate_voting_period; veto.rs VetoConfig::validate"), ("upgrade", SINGLE + " migrate")],
     [("CONFIG / CREATION_POLICY", "the rules and who may propose", "contracts/proposal/dao-proposal-single/src/state.rs")])

VEST = "contracts/external/cw-vesting/src/"
prop("C19", "A vesting pays its recipient what has vested, once; the owner the rest on cancel",
     "The recipient is paid, in the vesting's token, at most what has vested by the time less what was paid and slashed, and never staked tokens; every payment is recorded. Cancelling, once and by the owner only, freezes what has vested, settles recipient and owner from the liquid tokens and records what the owner is still owed, which is all the owner may withdraw later. It is funded once with exactly the promised total; only the recipient of a funded vesting stakes, only tokens of the vesting's own denom, and slashes are charged as agreed.",
     ["inputs", "histories"],
     "every schedule, time, amount, stake, slash and order of distributions, cancellation, slashes and withdrawals",
     "Tests follow a few schedules and orders; a slash counted twice or not at all, a staked token paid out, or an owner's share that takes from the vested part needs particular mixes of stake, slash, time and cancellation.",
     [VEST + "contract.rs", VEST + "vesting.rs"],
     [("distribution, cancellation, withdrawal, slashes", VEST + "vesting.rs Payment"), ("authority and messages", VEST + "contract.rs")],
     [("vesting", "terms, claimed, slashed and status", VEST + "vesting.rs Payment")])

prop("C30", "Stake books are true at every time, past and scheduled",
     "Every delegation, redelegation, undelegation and slash a vesting accepts is put on the books of its validators and, where it changes it, of the total: by exactly its amount, at the time it takes effect (now; after the unbonding period; when the slash happened) and at every later time already recorded, except that a slash of unbonding tokens leaves what is scheduled as it is. A look at any time answers what was last recorded by then. The count of validators follows, one at a time, also at later times.",
     ["inputs", "histories"],
     "every sequence of delegations, redelegations, undelegations and slashes, at any times and for any validators",
     "Tests replay a few schedules; a later recording left out, a boundary taken on the wrong side or a count that misses a stake made while another unbonds shows only in particular interleavings of times.",
     ["packages/cw-stake-tracker/src/lib.rs", "packages/cw-wormhole/src/lib.rs", VEST + "contract.rs"],
     [("stake books", "packages/cw-stake-tracker/src/lib.rs StakeTracker"), ("values in the past and future", "packages/cw-wormhole/src/lib.rs Wormhole")],
     [("staked / validator / cardinality", "amounts and count by time", VEST + "vesting.rs Payment.staking")])

RW = "contracts/distribution/dao-rewards-distributor/src/"
prop("C16", "What a member earns in rewards is its share of what was emitted, paid once",
     "Each unit of voting power earns, over whole emission periods, the emitted amount divided by the total power; a member is credited its power times what a unit earned since it was last looked at, every notified change of power is looked at first in all the caller's distributions, and a claim pays the credited amount once, in the distribution's token, to the member. Only the owner (or anyone, if open) funds a distribution, with its own token; the funds set how long the emission lasts. Only the owner creates, changes or withdraws, gets back just what is not yet distributed, and a change of rate keeps what was earned.",
     ["inputs", "histories"],
     "every emission rate, power history, funding, claim, rate change and withdrawal, at any height or time",
     "Tests follow a few schedules with fixed powers; rewards lost, doubled or misattributed need particular mixes of funding, power changes, expiry, pauses and rate changes.",
     [RW + "contract.rs", RW + "rewards.rs", RW + "state.rs", RW + "hooks.rs", RW + "helpers.rs"],
     [("accrual", RW + "rewards.rs update_rewards / get_active_total_earned_puvp"), ("funding, rates, epochs", RW + "contract.rs, state.rs DistributionState / Epoch"), ("notifications", RW + "hooks.rs")],
     [("d / ur / rh / count", "distributions, members' rewards, who notifies of which distribution", RW + "state.rs")])

TF = "contracts/external/cw-tokenfactory-issuer/src/"
prop("C22", "A token issuer mints and burns within allowances; freezes and denials bind",
     "Anyone mints or burns at most the allowance the owner set for it, which shrinks by exactly what was minted (to the account named) or burned (from the account named); within it, the call succeeds. Only the owner sets allowances, lists, the freeze, the watcher, the metadata or the token's admin, or moves others' tokens, and each call does just that. While frozen the token moves only from or to the allowed, and never from or to the denied; every other transfer goes through.",
     ["inputs", "histories"],
     "every caller, amount, allowance, list, freeze and transfer, in any order",
     "Tests set one allowance and move one coin; an allowance not used up, a freeze that misses minting, or a list read for the wrong account or the wrong token shows only for particular mixes of lists, freeze and accounts.",
     [TF + "contract.rs", TF + "execute.rs", TF + "hooks.rs", TF + "helpers.rs", TF + "queries.rs", TF + "state.rs"],
     [("minting and burning", TF + "execute.rs mint / burn"), ("administration", TF + "execute.rs"), ("transfers", TF + "hooks.rs beforesend_hook; helpers.rs check_is_not_frozen / check_is_not_denied")],
     [("minter_allowances / burner_allowances / denylist / allowlist / is_frozen", "who may do what with the token", TF + "state.rs")])

RL = "contracts/external/cw721-roles/src/"
prop("C23", "Roles: a member's weight follows its role tokens, and every hook is told",
     "Only the minter makes, moves, changes or destroys roles or uses the collection at all. A role made, burned, transferred, sent or given another weight moves exactly its weight on and off its holder's books, and the total by the same; a holder left with no weight is no member. Every registered hook is told who changed, from and to what, of each such change; the other calls change no weight or holder.",
     ["inputs", "histories"],
     "every weight, holder, and order of mints, burns, transfers and changes",
     "Tests mint and change a role or two for one member; weight left behind by a transfer, a change not told, or a holder dropped with weight left shows only in longer histories.",
     [RL + "contract.rs", RL + "state.rs"],
     [("weights and notifications", RL + "contract.rs execute_mint / execute_burn / execute_transfer / execute_send / execute_update_token_weight")],
     [("members / total", "weights by height", RL + "state.rs"), ("hooks", "who is told", RL + "state.rs")])

prop("C25", "An upgrade keeps everything a contract stores",
     "Migrating a contract writes nothing but its new version, under its own name, and sends nothing; a call that records no version changes nothing. The conversions from older layouts (the DAO's v1 modules and config, staking and rewards contracts' v1 owner and config, pre-propose deposits and policy) keep every stored value, converted, and are refused to a contract that is already converted.",
     ["inputs", "histories"],
     "every stored state of the older version and every migration message",
     "Tests migrate one small state; an entry dropped, reset, or converted from the wrong field shows only for stored states with that entry.",
     ["contracts/dao-dao-core/src/contract.rs", "contracts/staking/cw20-stake/src/contract.rs", "contracts/staking/cw20-stake-external-rewards/src/contract.rs", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs", "packages/dao-pre-propose-base/src/execute.rs", "contracts/pre-propose/dao-pre-propose-approval-single/src/contract.rs"],
     [("migrate entry points", "every contract's contract.rs migrate")],
     [("config_v2 / proposal_modules_v2 / ownership / deposits", "what conversions rewrite", "the contracts' state.rs")])

prop("C26", "Queries answer what is stored, page by page",
     "Every list query answers a page of its collection: all of its entries (those of the account, proposal or kind asked for), in key order or in reverse as asked, after the entry named, as many as asked for up to a fixed maximum, each as it is stored. Every look-up answers the stored value of exactly what was asked for, or that there is none; computed answers (rewards pending and undistributed, entitlements, who may propose, whether paused) are what the operation itself would use.",
     ["inputs", "histories"],
     "every stored state, start, limit and account",
     "Tests page through a handful of entries; an entry skipped or repeated at a page boundary, or answered from another account's or another collection's record, shows only for particular starts, limits and states.",
     ["packages/cw-paginate-storage/src/lib.rs", "contracts/dao-dao-core/src/contract.rs", "contracts/proposal/dao-proposal-single/src/contract.rs", "contracts/proposal/dao-proposal-multiple/src/contract.rs", "contracts/external/cw-tokenfactory-issuer/src/queries.rs", "contracts/external/cw-payroll-factory/src/contract.rs", "contracts/distribution/dao-rewards-distributor/src/contract.rs", "contracts/distribution/cw-fund-distributor/src/contract.rs"],
     [("pagination", "packages/cw-paginate-storage/src/lib.rs"), ("queries", "every contract's contract.rs query")],
     [("every namespace", "lists and records", "the contracts' state.rs")])

prop("C27", "What is due is not refused",
     "Whoever holds a right can use it: staked tokens can be unstaked, matured claims claimed, vested, distributed and earned funds taken, one's side of an unfinished swap withdrawn, members vote and revise votes while that is open, a passed proposal executed, a rejected one closed, a proposal vetoed by its vetoer, and an enabled module's messages executed by an unpaused DAO. Under the documented conditions for each, and given that other contracts answer and numbers fit, the call succeeds; no further condition stands in its way. Likewise those in charge (the DAO, the owner, the admin, the approver) can change what is theirs to change to any valid value, members and payers can delegate, fund and trade, and reported changes and failures (of a hook, of an execution) are taken and hold nothing up.",
     ["inputs", "histories"],
     "every state in which the documented conditions hold, every amount, account and time",
     "Tests try each call in a few states where it succeeds; a further condition under which it is refused and funds or proposals are stuck shows only in the states that meet it.",
     ["contracts/dao-dao-core/src/contract.rs", "contracts/proposal/dao-proposal-single/src/contract.rs", "contracts/proposal/dao-proposal-multiple/src/contract.rs", "packages/dao-pre-propose-base/src/execute.rs", "contracts/staking/cw20-stake/src/contract.rs", "contracts/voting/dao-voting-token-staked/src/contract.rs", "contracts/voting/dao-voting-cw721-staked/src/contract.rs", "contracts/voting/dao-voting-onft-staked/src/contract.rs", "contracts/external/cw-vesting/src/contract.rs", "contracts/external/cw-token-swap/src/contract.rs", "contracts/distribution/cw-fund-distributor/src/contract.rs", "contracts/distribution/dao-rewards-distributor/src/contract.rs", "contracts/staking/cw20-stake-external-rewards/src/contract.rs", "contracts/staking/cw20-stake-reward-distributor/src/contract.rs", "contracts/external/cw-tokenfactory-issuer/src/execute.rs", "contracts/external/cw-payroll-factory/src/contract.rs", "contracts/external/cw721-roles/src/contract.rs", "contracts/proposal/dao-proposal-condorcet/src/contract.rs", "packages/dao-voting/src/threshold.rs"],
     [("exits and claims", "execute_unstake, execute_claim, execute_claim_nfts, execute_distribute, execute_withdraw, execute_claim_natives"), ("proposals", "execute_vote, execute_execute, execute_close, execute_veto, reply"), ("what is theirs to change", "update_config, add_hook / remove_hook, update_submission_policy, execute_update_active_threshold and their like")],
     [("proposals_v2", "proposals", "proposal modules state.rs"), ("claims and stakes", "staked_balances, claims, nft_claims", "staking contracts state.rs")])

VM = "contracts/voting/dao-voting-"
prop("C28", "A voting module starts wired to its DAO and what it counts",
     "A voting module is bound to whoever created it as its DAO and to exactly the token, group, staking contract or collection asked for: an existing one must be a valid one of the kind (the staking contract staking that very token), and a new one is made under the DAO's administration, gives exactly the asked initial holdings, and is offered to the DAO as owner, which is asked to accept it where the module arranges that. Setup fails if nobody would hold anything. What a creation reports can set the module's address only once.",
     ["inputs", "histories"],
     "every instantiation message, list of initial holders, factory and reply",
     "Tests instantiate a few shapes; a holder skipped, the issuer left with the module as owner, supply held only by the DAO, or a mismatched staking contract shows only for particular messages.",
     [VM + x + "/src/contract.rs" for x in ("token-staked", "cw20-staked", "cw721-staked", "onft-staked", "cw4", "cw721-roles")],
     [("setup", "instantiate and reply of every voting module")],
     [("dao / denom / token / staking_contract / group_contract / config", "what the module is bound to", "the modules' state.rs")])

prop("C24", "The DAO's items, SubDAOs and token lists hold what it put there",
     "A DAO is created with the configuration asked and every item asked, refusing a repeated key. Its list updates add every named entry (a token only after the contract answers as one) and remove every named one; items and configuration are set to exactly what is given. A token sent to the DAO is listed exactly when the configuration says so, and no other call touches these records.",
     ["inputs", "histories"],
     "every list of additions and removals, and every sequence of updates",
     "Tests update short lists; an entry skipped, a list mixed with another, or an item overwritten by a repeated key shows only for particular lists.",
     ["contracts/dao-dao-core/src/contract.rs"],
     [("records", "contracts/dao-dao-core/src/contract.rs do_update_addr_list / execute_update_sub_daos_list / execute_receive_cw20 / execute_receive_cw721")],
     [("items / sub_daos / cw20s / cw721s / config_v2", "the DAO's own records", "contracts/dao-dao-core/src/state.rs")])

prop("C31", "A vesting's curve never falls and ends at its total",
     "At every time the amount vested is at least what was vested before, nothing before the start, and the whole total from the end on, for linear and piecewise-linear schedules alike.",
     ["inputs"],
     "every schedule and every pair of times",
     "Tests evaluate a few schedules at a few times; a schedule that dips or stops short shows only for particular points.",
     ["contracts/external/cw-vesting/src/vesting.rs"],
     [("curve", "contracts/external/cw-vesting/src/vesting.rs Schedule::into_curve; wynd_utils Curve")],
     [("vesting", "the schedule", "contracts/external/cw-vesting/src/vesting.rs")])
NA["C31"] = "Interpolation over run-time points, in an external crate (wynd_utils Curve): monotonicity and end point are numeric facts about values no static argument in reach bounds; the rules of C19 take the curve's value as an opaque term."

prop("C32", "Books add up: totals equal the sum over all accounts, balances cover debts",
     "At all times the stored total stake, weight or supply equals the sum over all accounts, and each contract's own balance covers all it still owes its users.",
     ["histories"],
     "every history of calls by every set of accounts",
     "Tests follow a few accounts through a few calls.",
     ["contracts/staking/cw20-stake/src/contract.rs", "contracts/distribution/dao-rewards-distributor/src/contract.rs", "contracts/external/cw-vesting/src/vesting.rs"],
     [("books", "the staking, rewards and vesting contracts")],
     [("totals and balances", "what is owed", "the contracts' state.rs")])
NA["C32"] = "Sums over an unbounded run-time set of accounts and the balances kept by other contracts and the chain; what is static is the step (each operation moves account and total by the same term and pays what it takes off), which C12, C13, C16-C19, C23 and C30 decide."
