M = "contracts/proposal/dao-proposal-multiple/src/contract.rs"
R = "contracts/distribution/dao-rewards-distributor/src/contract.rs"
F = "contracts/distribution/cw-fund-distributor/src/contract.rs"
V = "contracts/external/cw-vesting/src/vesting.rs"
T = "packages/cw-stake-tracker/src/lib.rs"
SEEDS = [
 dict(id="refund-forgets-unclaimed", property="C16", prelude="prelude_rew",
  needs="a discontinuous linear distribution that expires before its members claim and is then funded again",
  breaks="what was emitted between the last look and the end of the expired period is lost to the members",
  edits=[(R, """            let final_total_earned_puvp =
                get_active_total_earned_puvp(deps.as_ref(), &env.block, &distribution)?;
""", """            // the period is over: what it earned is final
            let final_total_earned_puvp = distribution.active_epoch.total_earned_puvp;
""")],
  demo="""
#[test]
fn unclaimed_rewards_survive_refunding() {
    let mut f = rew();
    let id = f.create(linear(100, 10, false), 1000);
    f.blocks(50);
    f.claim(A, id).unwrap();
    f.blocks(150);
    f.fund(id, 1000).unwrap();
    assert_eq!(f.pending(B, id), 500);
    assert_eq!(f.pending(A, id), 250);
}
"""),
 dict(id="repeated-denom-paid-twice", property="C18", prelude="prelude_fund",
  needs="a claim that names the same denom twice",
  breaks="a member is paid its share once per time the denom is named",
  edits=[(F, """    let mut messages: Vec<BankMsg> = vec![];

    for addr in denoms {
        // get the balance of distributor at instantiation
        let bal = NATIVE_BALANCES.load(deps.storage, addr.clone())?;

        // check for any previous claims
        let previous_claim = NATIVE_CLAIMS
            .may_load(deps.storage, (sender.clone(), addr.clone()))?
            .unwrap_or_default();

        // get % share of sender and subtract any previous claims
        let entitlement = get_entitlement(bal, relative_share, previous_claim)?;
        if !entitlement.is_zero() {""", """    let mut messages: Vec<BankMsg> = vec![];

    // work out everything owed before anything is written
    let mut entitlements: Vec<(String, Uint128)> = vec![];
    for addr in denoms {
        // get the balance of distributor at instantiation
        let bal = NATIVE_BALANCES.load(deps.storage, addr.clone())?;

        // check for any previous claims
        let previous_claim = NATIVE_CLAIMS
            .may_load(deps.storage, (sender.clone(), addr.clone()))?
            .unwrap_or_default();

        // get % share of sender and subtract any previous claims
        let entitlement = get_entitlement(bal, relative_share, previous_claim)?;
        entitlements.push((addr, entitlement));
    }

    for (addr, entitlement) in entitlements {
        if !entitlement.is_zero() {""")],
  demo="""
#[test]
fn a_repeated_denom_is_paid_once() {
    let mut f = fund();
    let h = f.height();
    let d = f.distributor(h, 10);
    f.exec(&d, ADMIN, &ExecuteMsg::FundNative {}, &coins(1000, "ujuno")).unwrap();
    f.blocks(20);
    let before = f.bal(A, "ujuno");
    let _ = f.exec(&d, A, &ExecuteMsg::ClaimNatives { denoms: vec!["ujuno".into(), "ujuno".into()] }, &[]);
    assert!(f.bal(A, "ujuno") <= before + 250);
}
"""),
 dict(id="owner-loses-owed", property="C19", prelude="prelude_none",
  needs="a vesting cancelled with tokens staked, unbonded in two parts, with an owner's withdrawal in between",
  breaks="an owner's partial withdrawal forfeits what it was owed and was not yet liquid",
  edits=[(V, """                    owner_withdrawable: owner_withdrawable - request,
""", """                    owner_withdrawable: claimable - request,
""")],
  demo="""
use cw_vesting::vesting::*;
#[test]
fn the_owner_gets_all_it_is_owed() {
    let mut deps = mock_dependencies();
    let s = &mut deps.storage;
    let p = Payment::new("vesting", "staked", "validator", "cardinality");
    p.initialize(s, VestInit {
        total: Uint128::new(100_000_000),
        schedule: Schedule::SaturatingLinear,
        start_time: Timestamp::from_seconds(0),
        duration_seconds: 100,
        denom: cw_vesting::CheckedDenom::Native("native".to_string()),
        recipient: Addr::unchecked("recv"),
        title: "title".to_string(),
        description: None,
    }).unwrap();
    p.set_funded(s).unwrap();
    let t = Timestamp::from_seconds;
    p.on_delegate(s, t(0), "v".into(), Uint128::new(100_000_000)).unwrap();
    let owner = Addr::unchecked("owner");
    p.cancel(s, t(0), &owner).unwrap();
    p.on_undelegate(s, t(0), "v".into(), Uint128::new(60_000_000), 10).unwrap();
    p.on_undelegate(s, t(0), "v".into(), Uint128::new(40_000_000), 20).unwrap();
    p.withdraw_canceled_payment(s, t(10), None, &owner).unwrap();
    p.withdraw_canceled_payment(s, t(20), None, &owner).unwrap();
    assert_eq!(p.get_vest(s).unwrap().status, Status::Canceled { owner_withdrawable: Uint128::zero() });
}
"""),
 dict(id="mint-while-frozen", property="C22", prelude="prelude_none",
  needs="a frozen token whose issuer contract is on the allowlist, and a minter that is not, minting to an account that is not",
  breaks="a minter that is not allowed mints while the token is frozen",
  edits=[("contracts/external/cw-tokenfactory-issuer/src/execute.rs", """    // Check token is not frozen, or if from or to address is on allowlist
    check_is_not_frozen(deps.as_ref(), info.sender.as_str(), &to_address, &denom)?;

    // Create tokenfactory MsgMint""", """    // Check token is not frozen, or if from or to address is on allowlist
    check_is_not_frozen(
        deps.as_ref(),
        env.contract.address.as_str(),
        &to_address,
        &denom,
    )?;

    // Create tokenfactory MsgMint""")],
  demo="""
use cw_tokenfactory_issuer::{execute, state};
#[test]
fn no_minting_while_frozen() {
    let mut deps = mock_dependencies();
    let env = mock_env();
    let denom = format!("factory/{}/utest", env.contract.address);
    state::DENOM.save(&mut deps.storage, &denom).unwrap();
    state::IS_FROZEN.save(&mut deps.storage, &true).unwrap();
    state::ALLOWLIST.save(&mut deps.storage, &env.contract.address, &true).unwrap();
    state::MINTER_ALLOWANCES.save(&mut deps.storage, &Addr::unchecked("minter"), &Uint128::new(10)).unwrap();
    execute::mint(deps.as_mut(), env, mock_info("minter", &[]), "someone".into(), Uint128::new(5)).unwrap_err();
}
"""),
 dict(id="silent-veto", property="C09", prelude="prelude_prop",
  needs="a multiple-choice proposal with a status-change hook that is vetoed",
  breaks="the veto is not announced to the proposal hooks: old and new status are compared after the change",
  edits=[(M, """    // ensure status is up to date
    prop.update_status(&env.block)?;
    let old_status = prop.status;

    let veto_config = prop""", """    // ensure status is up to date
    prop.update_status(&env.block)?;

    let veto_config = prop"""), (M, """    // Update proposal status to vetoed
    prop.status = Status::Vetoed;
    PROPOSALS.save(deps.storage, proposal_id, &prop)?;
""", """    // Update proposal status to vetoed
    prop.status = Status::Vetoed;
    let old_status = prop.status;
    PROPOSALS.save(deps.storage, proposal_id, &prop)?;
""")],
  demo="""
#[test]
fn a_veto_is_announced() {
    let mut i = multiple();
    i.veto = Some(VetoConfig { timelock_duration: Duration::Height(3), vetoer: OUT.into(), early_execute: false, veto_before_passed: true });
    let mut d = dao(|s| info(s.proposal_multiple_id, &i));
    let code = d.s.app.store_code(dao_testing::contracts::dao_proposal_hook_counter_contract());
    let m = d.module.clone();
    let hook = d.s.app.instantiate_contract(code, Addr::unchecked(A), &dao_proposal_hook_counter::msg::InstantiateMsg { should_error: false }, &[], "h", None).unwrap();
    let core = d.core.to_string();
    d.exec(&core, &dao_proposal_multiple::msg::ExecuteMsg::AddProposalHook { address: hook.to_string() }).unwrap();
    propose2(&mut d, vec![option(vec![]), option(vec![])]);
    d.exec(OUT, &dao_proposal_multiple::msg::ExecuteMsg::Veto { proposal_id: 1 }).unwrap();
    let n: dao_proposal_hook_counter::msg::CountResponse = d.s.app.wrap().query_wasm_smart(&hook, &dao_proposal_hook_counter::msg::QueryMsg::StatusChangedCounter {}).unwrap();
    assert_eq!(n.count, 1);
}
"""),
 dict(id="receive-while-paused", property="C01", prelude="prelude_prop",
  needs="a DAO that is paused and adds received cw20 tokens to its list automatically",
  breaks="while the DAO is paused anyone can still change its list of tokens",
  edits=[("contracts/dao-dao-core/src/contract.rs", """            if info.sender != env.contract.address
                && info.sender.clone() != ADMIN.load(deps.storage)?
            {""", """            // (what was already sent here still has to be taken in)
            if info.sender != env.contract.address
                && info.sender.clone() != ADMIN.load(deps.storage)?
                && !matches!(msg, ExecuteMsg::Receive(_) | ExecuteMsg::ReceiveNft(_))
            {""")],
  demo="""
#[test]
fn nothing_moves_while_paused() {
    let mut d = dao(|s| info(s.proposal_single_id, &single()));
    let core = d.core.clone();
    d.exec_on(core.as_str(), &core, &dao_interface::msg::ExecuteMsg::Pause { duration: Duration::Height(10) }).unwrap();
    let r = cw20::Cw20ReceiveMsg { sender: A.into(), amount: Uint128::new(1), msg: Default::default() };
    d.exec_on(OUT, &core, &dao_interface::msg::ExecuteMsg::Receive(r)).unwrap_err();
}
"""),
 dict(id="unbonding-slash-counts-twice", property="C30", prelude="prelude_none",
  needs="all of a validator's tokens unbonding, slashed to nothing before they have unbonded, and another validator staked",
  breaks="a validator whose unbonding tokens were slashed away is taken off the count twice",
  edits=[(T, """        if new.is_zero() {
            self.cardinality
                .dangerously_update(storage, (), t.seconds(), &mut |v, _| v - 1)?;
        }""", """        if new.is_zero() {
            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
        }""")],
  demo="""
use cw_stake_tracker::*;
#[test]
fn a_slashed_validator_leaves_once() {
    let mut deps = mock_dependencies();
    let s = &mut deps.storage;
    let k = StakeTracker::new("s", "v", "c");
    let t = Timestamp::from_seconds;
    k.on_delegate(s, t(0), "a".into(), Uint128::new(10)).unwrap();
    k.on_delegate(s, t(0), "b".into(), Uint128::new(10)).unwrap();
    k.on_delegate(s, t(0), "c".into(), Uint128::new(10)).unwrap();
    k.on_undelegate(s, t(1), "a".into(), Uint128::new(10), 10).unwrap();
    k.on_unbonding_slash(s, t(5), "a".into(), Uint128::new(10)).unwrap();
    let n: u8 = cosmwasm_std::from_json(k.query(s, StakeTrackerQuery::Cardinality { t: t(20) }).unwrap()).unwrap();
    assert_eq!(n, 2);
}
"""),
 dict(id="claims-share-a-release", property="C13", prelude="prelude_none",
  needs="an account unstaking NFTs while an earlier claim of its is still waiting",
  breaks="NFTs unstaked later are released with the earliest waiting claim, before their own unstaking duration is over",
  edits=[("packages/cw721-controllers/src/nft_claim.rs", """            Ok(old
                .unwrap_or_default()
                .into_iter()
                .chain(""", """            let old = old.unwrap_or_default();
            // claims of one account are paid together
            let release_at = old.first().map(|c| c.release_at).unwrap_or(release_at);
            Ok(old
                .into_iter()
                .chain(""")],
  demo="""
use cw721_controllers::NftClaims;
use cw_utils::Expiration;
#[test]
fn each_claim_has_its_own_release() {
    let mut deps = mock_dependencies();
    let c = NftClaims::new("claims");
    let a = Addr::unchecked("a");
    c.create_nft_claims(&mut deps.storage, &a, vec!["1".into()], Expiration::AtHeight(10)).unwrap();
    c.create_nft_claims(&mut deps.storage, &a, vec!["2".into()], Expiration::AtHeight(20)).unwrap();
    let mut env = mock_env();
    env.block.height = 15;
    assert_eq!(c.claim_nfts(&mut deps.storage, &a, &env.block).unwrap(), vec!["1".to_string()]);
}
"""),
 dict(id="power-of-this-block", property="C14", prelude="prelude_none",
  needs="a stake and a voting-power query for the current height in the same block",
  breaks="the power at a height changes within the block: it is not what was recorded at the height",
  edits=[("contracts/voting/dao-voting-token-staked/src/contract.rs", """    let power = STAKED_BALANCES
        .may_load_at_height(deps.storage, &address, height)?
        .unwrap_or_default();
    Ok(VotingPowerAtHeightResponse { power, height })""", """    // no history is needed for the current block
    let power = if height >= env.block.height {
        STAKED_BALANCES.may_load(deps.storage, &address)?
    } else {
        STAKED_BALANCES.may_load_at_height(deps.storage, &address, height)?
    }
    .unwrap_or_default();
    Ok(VotingPowerAtHeightResponse { power, height })""")],
  demo="""
use dao_voting_token_staked::msg::*;
#[test]
fn power_at_a_height_is_settled() {
    let mut app = App::default();
    app.sudo(SudoMsg::Bank(BankSudo::Mint { to_address: "staker".into(), amount: coins(100, "ujuno") })).unwrap();
    let code = app.store_code(dao_voting_token_staked_contract());
    let v = app.instantiate_contract(code, Addr::unchecked("dao"), &InstantiateMsg { token_info: TokenInfo::Existing { denom: "ujuno".into() }, unstaking_duration: None, active_threshold: None }, &[], "v", None).unwrap();
    app.update_block(|b| b.height += 1);
    let h = app.block_info().height;
    app.execute_contract(Addr::unchecked("staker"), v.clone(), &ExecuteMsg::Stake {}, &coins(100, "ujuno")).unwrap();
    let q = QueryMsg::VotingPowerAtHeight { address: "staker".into(), height: Some(h) };
    let now: dao_interface::voting::VotingPowerAtHeightResponse = app.wrap().query_wasm_smart(&v, &q).unwrap();
    app.execute_contract(Addr::unchecked("staker"), v.clone(), &ExecuteMsg::Unstake { amount: Uint128::new(100) }, &[]).unwrap();
    app.update_block(|b| b.height += 1);
    let then: dao_interface::voting::VotingPowerAtHeightResponse = app.wrap().query_wasm_smart(&v, &q).unwrap();
    assert_eq!(now.power, then.power);
}
"""),
 dict(id="overpaid-deposit-kept", property="C10", prelude="prelude_none",
  needs="a proposer that attaches more than the configured native deposit",
  breaks="more than the deposit is taken and the difference is never returned",
  edits=[("packages/dao-voting/src/deposit.rs", """            let paid = must_pay(info, denom)?;
            if paid != *amount {""", """            let paid = must_pay(info, denom)?;
            if paid < *amount {""")],
  demo="""
use dao_voting::deposit::*;
#[test]
fn the_deposit_is_exact() {
    let d = CheckedDepositInfo { denom: cw_denom::CheckedDenom::Native("ujuno".into()), amount: Uint128::new(10), refund_policy: DepositRefundPolicy::Always };
    d.check_native_deposit_paid(&mock_info("a", &coins(10, "ujuno"))).unwrap();
    d.check_native_deposit_paid(&mock_info("a", &coins(11, "ujuno"))).unwrap_err();
}
"""),
]
