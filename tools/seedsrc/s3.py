SP = "contracts/proposal/dao-proposal-single/src/contract.rs"
SR = "contracts/proposal/dao-proposal-single/src/proposal.rs"
CORE = "contracts/dao-dao-core/src/contract.rs"
NFT = "contracts/voting/dao-voting-cw721-staked/src/state.rs"
PAY = "contracts/external/cw-payroll-factory/src/contract.rs"
C20S = "contracts/staking/cw20-stake/src/contract.rs"
ROLES = "contracts/external/cw721-roles/src/contract.rs"
TOK = "contracts/voting/dao-voting-token-staked/src/contract.rs"
SEEDS = [
 dict(id="module-disabled-twice", property="C02", prelude="prelude_prop",
  needs="an update of the proposal modules that adds one and names the same module twice to be disabled",
  breaks="the active module counter falls by two for one disabled module",
  edits=[(CORE, """    let disable_count = to_disable.len() as u32;
    for addr in to_disable {
        let addr = deps.api.addr_validate(&addr)?;
""", """    let disable_count = to_disable.len() as u32;
    let mut modules = Vec::with_capacity(to_disable.len());
    for addr in to_disable {
        let addr = deps.api.addr_validate(&addr)?;
"""), (CORE, """        module.status = ProposalModuleStatus::Disabled {};
        PROPOSAL_MODULES.save(deps.storage, addr, &module)?;
    }
""", """        module.status = ProposalModuleStatus::Disabled {};
        modules.push((addr, module));
    }
    // everything asked for can be disabled
    for (addr, module) in modules {
        PROPOSAL_MODULES.save(deps.storage, addr, &module)?;
    }
""")],
  demo="""
#[test]
fn the_active_count_is_the_number_of_active_modules() {
    let mut d = dao(|s| info(s.proposal_single_id, &single()));
    let (core, m) = (d.core.clone(), d.module.to_string());
    let two: Vec<_> = (0..2).map(|_| info(d.s.proposal_single_id, &single())).collect();
    use dao_interface::msg::{ExecuteMsg as E, QueryMsg as Q};
    d.exec_on(core.as_str(), &core, &E::UpdateProposalModules { to_add: two, to_disable: vec![] }).unwrap();
    let _ = d.exec_on(core.as_str(), &core, &E::UpdateProposalModules { to_add: vec![], to_disable: vec![m.clone(), m] });
    let n: dao_interface::query::ProposalModuleCountResponse = d.s.app.wrap().query_wasm_smart(&core, &Q::ProposalModuleCount {}).unwrap();
    let l: Vec<dao_interface::state::ProposalModule> = d.s.app.wrap().query_wasm_smart(&core, &Q::ActiveProposalModules { start_after: None, limit: None }).unwrap();
    assert_eq!(n.active_proposal_module_count as usize, l.len());
}
"""),
 dict(id="nft-unstaked-twice", property="C13", prelude="prelude_none",
  needs="a staker of two or more NFTs naming one of them twice in an unstaking",
  breaks="one NFT leaves the books while the counts fall by two, and two claims are made for it",
  edits=[(NFT, """        let key = (staker, token.as_str());
        if STAKED_NFTS_PER_OWNER.has(storage, key) {
            STAKED_NFTS_PER_OWNER.remove(storage, key);
        } else {
            return Err(ContractError::NotStaked {
                token_id: token.clone(),
            });
        }
    }
""", """        if !STAKED_NFTS_PER_OWNER.has(storage, (staker, token.as_str())) {
            return Err(ContractError::NotStaked {
                token_id: token.clone(),
            });
        }
    }
    for token in token_ids {
        STAKED_NFTS_PER_OWNER.remove(storage, (staker, token.as_str()));
    }
""")],
  demo="""
use dao_voting_cw721_staked::state::*;
#[test]
fn an_nft_is_unstaked_once() {
    let mut deps = mock_dependencies();
    let s = &mut deps.storage;
    let a = Addr::unchecked("a");
    register_staked_nft(s, 1, &a, &"1".to_string()).unwrap();
    register_staked_nft(s, 1, &a, &"2".to_string()).unwrap();
    assert!(register_unstaked_nfts(s, 2, &a, &["1".to_string(), "1".to_string()]).is_err());
}
"""),
 dict(id="payroll-creator-as-admin", property="C20", prelude="prelude_none",
  needs="a vesting contract made without an owner",
  breaks="whoever made the vesting contract can migrate it, though it is to be under no one's control",
  edits=[(PAY, """        admin: instantiate_msg.owner.clone(),
""", """        admin: instantiate_msg
            .owner
            .clone()
            .or_else(|| Some(sender.to_string())),
""")],
  demo="""
#[test]
fn nobody_rules_an_ownerless_vesting() {
    let mut app = App::default();
    let f = app.store_code(cw_payroll_factory_contract());
    let v = app.store_code(cw_vesting_contract());
    let admin = Addr::unchecked("creatorx");
    app.sudo(SudoMsg::Bank(BankSudo::Mint { to_address: admin.to_string(), amount: coins(1000, "ujuno") })).unwrap();
    let f = app.instantiate_contract(f, admin.clone(), &cw_payroll_factory::msg::InstantiateMsg { owner: None, vesting_code_id: v }, &[], "f", None).unwrap();
    let m = cw_payroll_factory::msg::ExecuteMsg::InstantiateNativePayrollContract {
        instantiate_msg: cw_vesting::msg::InstantiateMsg {
            owner: None,
            recipient: "recipientx".into(),
            title: "t".into(),
            description: None,
            total: Uint128::new(1000),
            denom: cw_denom::UncheckedDenom::Native("ujuno".into()),
            schedule: cw_vesting::vesting::Schedule::SaturatingLinear,
            start_time: None,
            vesting_duration_seconds: 100,
            unbonding_duration_seconds: 10,
        },
        label: "l".into(),
    };
    app.execute_contract(admin, f.clone(), &m, &coins(1000, "ujuno")).unwrap();
    let l: Vec<cw_payroll_factory::state::VestingContract> = app.wrap().query_wasm_smart(&f, &cw_payroll_factory::msg::QueryMsg::ListVestingContracts { start_after: None, limit: None }).unwrap();
    let i = app.wrap().query_wasm_contract_info(&l[0].contract).unwrap();
    assert_eq!(i.admin, None);
}
"""),
 dict(id="autovote-skips-minimum", property="C07", prelude="prelude_prop",
  needs="a minimum voting period, and a proposer who votes with the proposal",
  breaks="a proposal made with a vote carries no minimum voting period",
  edits=[(SP, """            min_voting_period: config.min_voting_period.map(|min| min.after(&env.block)),
            expiration,
            threshold: config.threshold,
            total_power,""", """            // once somebody has voted the proposal is known about
            min_voting_period: config
                .min_voting_period
                .filter(|_| vote.is_none())
                .map(|min| min.after(&env.block)),
            expiration,
            threshold: config.threshold,
            total_power,""")],
  demo="""
#[test]
fn the_minimum_voting_period_is_kept() {
    let mut d = dao(|s| {
        let mut m = single();
        m.min_voting_period = Some(Duration::Height(5));
        m.threshold = Threshold::AbsoluteCount { threshold: Uint128::new(3) };
        info(s.proposal_single_id, &m)
    });
    let m = dao_voting::proposal::SingleChoiceProposeMsg {
        title: "t".into(),
        description: "d".into(),
        msgs: vec![],
        proposer: None,
        vote: Some(dao_voting::voting::SingleChoiceAutoVote { vote: Vote::Yes, rationale: None }),
    };
    d.exec(C, &dao_proposal_single::msg::ExecuteMsg::Propose(m)).unwrap();
    assert_eq!(get1(&d, 1).status.to_string(), "open");
}
"""),
 dict(id="second-role-told-as-first", property="C23", prelude="prelude_none",
  needs="a member that already holds a role being given another",
  breaks="the hooks are told that the member had no weight before",
  edits=[(ROLES, """            // Set the diff for use in hooks
            diff = MemberDiff::new(owner.clone(), old, Some(new_weight));
            Ok(new_weight)
        },
    )?;
    TOTAL.save(deps.storage, &total.u64(), env.block.height)?;

    let diffs = MemberChangedHookMsg { diffs: vec![diff] };

    // Prepare hook messages
    let msgs = HOOKS.prepare_hooks(deps.storage, |h| {
        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
    })?;

    // Call base mint""", """            // Set the diff for use in hooks
            diff = MemberDiff::new(owner.clone(), diff.old, Some(new_weight));
            Ok(new_weight)
        },
    )?;
    TOTAL.save(deps.storage, &total.u64(), env.block.height)?;

    let diffs = MemberChangedHookMsg { diffs: vec![diff] };

    // Prepare hook messages
    let msgs = HOOKS.prepare_hooks(deps.storage, |h| {
        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
    })?;

    // Call base mint""")],
  demo="""
use cw4::MemberChangedHookMsg;
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Response, StdResult};
#[cosmwasm_schema::cw_serde]
enum Hear {
    MemberChangedHook(MemberChangedHookMsg),
}
fn inst(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn hear(deps: DepsMut, _: Env, _: MessageInfo, msg: Hear) -> StdResult<Response> {
    let Hear::MemberChangedHook(m) = msg;
    deps.storage.set(b"last", &to_json_binary(&m.diffs[0].old)?);
    Ok(Response::new())
}
fn last(deps: Deps, _: Env, _: Empty) -> StdResult<Binary> {
    Ok(Binary(deps.storage.get(b"last").unwrap()))
}
#[test]
fn the_hooks_hear_the_old_weight() {
    let mut app = App::default();
    let admin = Addr::unchecked("adminx");
    let c = app.store_code(Box::new(cw_multi_test::ContractWrapper::new(hear, inst, last)));
    let h = app.instantiate_contract(c, admin.clone(), &Empty {}, &[], "h", None).unwrap();
    let r = app.store_code(cw721_roles_contract());
    let r = app.instantiate_contract(r, admin.clone(), &cw721_base::InstantiateMsg { name: "n".into(), symbol: "s".into(), minter: admin.to_string() }, &[], "r", None).unwrap();
    type E = cw721_roles::msg::ExecuteMsg;
    app.execute_contract(admin.clone(), r.clone(), &E::Extension { msg: dao_cw721_extensions::roles::ExecuteExt::AddHook { addr: h.to_string() } }, &[]).unwrap();
    for i in ["1", "2"] {
        let m = E::Mint {
            token_id: i.into(),
            owner: "memberx".into(),
            token_uri: None,
            extension: dao_cw721_extensions::roles::MetadataExt { role: None, weight: 5 },
        };
        app.execute_contract(admin.clone(), r.clone(), &m, &[]).unwrap();
    }
    let old: Option<u64> = app.wrap().query_wasm_smart(&h, &Empty {}).unwrap();
    assert_eq!(old, Some(5));
}
"""),
 dict(id="revoting-rejected-early", property="C05", prelude="prelude_prop",
  needs="re-voting allowed and every member having voted",
  breaks="a proposal is rejected while votes may still be changed",
  edits=[(SR, """        if self.allow_revoting && !self.expiration.is_expired(block) {
            return false;
        }

        match self.threshold {
            Threshold::AbsolutePercentage {
                percentage: percentage_needed,
            } => {
                let options = self.total_power - self.votes.abstain;

                // If there is a 100% passing threshold..
                if percentage_needed == PercentageThreshold::Percent(Decimal::percent(100)) {
                    if options == Uint128::zero() {
                        // and there are no possible votes (zero
                        // voting power or all abstain), then this
                        // proposal has been rejected.""", """        // (unless there is nobody left to vote)
        if self.allow_revoting
            && !self.expiration.is_expired(block)
            && (self.votes.total() < self.total_power || self.votes.abstain.is_zero())
        {
            return false;
        }

        match self.threshold {
            Threshold::AbsolutePercentage {
                percentage: percentage_needed,
            } => {
                let options = self.total_power - self.votes.abstain;

                // If there is a 100% passing threshold..
                if percentage_needed == PercentageThreshold::Percent(Decimal::percent(100)) {
                    if options == Uint128::zero() {
                        // and there are no possible votes (zero
                        // voting power or all abstain), then this
                        // proposal has been rejected.""")],
  demo="""
#[test]
fn open_while_votes_may_change() {
    let mut i = single();
    i.allow_revoting = true;
    let mut d = dao(|s| info(s.proposal_single_id, &i));
    propose1(&mut d, vec![]);
    vote1(&mut d, A, 1, Vote::Abstain).unwrap();
    vote1(&mut d, B, 1, Vote::No).unwrap();
    vote1(&mut d, C, 1, Vote::No).unwrap();
    assert_eq!(get1(&d, 1).status.to_string(), "open");
}
"""),
 dict(id="minimum-against-old-maximum", property="C08", prelude="prelude_prop",
  needs="a change of the rules that shortens the voting period below the minimum voting period",
  breaks="a minimum voting period longer than the voting period is stored",
  edits=[(SP, """    let (min_voting_period, max_voting_period) =
        validate_voting_period(min_voting_period, max_voting_period)?;

    // if veto is configured, validate its fields
    if let Some(veto_config) = &veto {
        veto_config.validate(&deps.as_ref(), &max_voting_period)?;
    };

    CONFIG.save(
        deps.storage,
        &Config {
            threshold,
            max_voting_period,
            min_voting_period,
            only_members_execute,
            allow_revoting,
            dao,
            close_proposal_on_execution_failure,
            veto,
        },
    )?;

    Ok(Response::default()
        .add_attribute("action", "update_config")""", """    // an unchanged minimum has been validated before
    let (min_voting_period, max_voting_period) =
        if min_voting_period.is_some() && min_voting_period == config.min_voting_period {
            (min_voting_period, max_voting_period)
        } else {
            validate_voting_period(min_voting_period, max_voting_period)?
        };

    // if veto is configured, validate its fields
    if let Some(veto_config) = &veto {
        veto_config.validate(&deps.as_ref(), &max_voting_period)?;
    };

    CONFIG.save(
        deps.storage,
        &Config {
            threshold,
            max_voting_period,
            min_voting_period,
            only_members_execute,
            allow_revoting,
            dao,
            close_proposal_on_execution_failure,
            veto,
        },
    )?;

    Ok(Response::default()
        .add_attribute("action", "update_config")""")],
  demo="""
#[test]
fn the_minimum_fits_the_voting_period() {
    let mut i = single();
    i.min_voting_period = Some(Duration::Height(8));
    let mut d = dao(|s| info(s.proposal_single_id, &i));
    let core = d.core.to_string();
    d.exec(&core, &dao_proposal_single::msg::ExecuteMsg::UpdateConfig {
        threshold: i.threshold.clone(),
        max_voting_period: Duration::Height(4),
        min_voting_period: Some(Duration::Height(8)),
        only_members_execute: true,
        allow_revoting: false,
        dao: core.clone(),
        close_proposal_on_execution_failure: true,
        veto: None,
    }).unwrap_err();
}
"""),
 dict(id="claim-in-stake-units", property="C12", prelude="prelude_none",
  needs="an unstaking duration and staking rewards paid in before the unstaking",
  breaks="the claim is for the number of shares, not what they are worth",
  edits=[(C20S, """            CLAIMS.create_claim(
                deps.storage,
                &info.sender,
                amount_to_claim,
                duration.after(&env.block),
            )?;""", """            CLAIMS.create_claim(
                deps.storage,
                &info.sender,
                amount_to_claim.min(amount),
                duration.after(&env.block),
            )?;""")],
  demo="""
use cw20_stake::{contract, msg, state};
#[test]
fn a_claim_is_for_what_the_stake_is_worth() {
    let mut deps = mock_dependencies();
    let env = mock_env();
    let a = Addr::unchecked("a");
    let s = &mut deps.storage;
    state::CONFIG.save(s, &state::Config { token_address: Addr::unchecked("t"), unstaking_duration: Some(Duration::Height(5)) }).unwrap();
    state::BALANCE.save(s, &Uint128::new(200)).unwrap();
    state::STAKED_TOTAL.save(s, &Uint128::new(100), 1).unwrap();
    state::STAKED_BALANCES.save(s, &a, &Uint128::new(100), 1).unwrap();
    contract::execute(deps.as_mut(), env, mock_info("a", &[]), msg::ExecuteMsg::Unstake { amount: Uint128::new(50) }).unwrap();
    let c = state::CLAIMS.query_claims(deps.as_ref(), &a).unwrap().claims;
    assert_eq!(c[0].amount, Uint128::new(100));
}
"""),
 dict(id="dao-holds-it-all", property="C28", prelude="prelude_none",
  needs="a new token of which only the DAO itself is given an initial balance",
  breaks="a voting module is set up in which no member holds anything",
  edits=[(TOK, """                    if initial_supply.is_zero() {
                        return Err(ContractError::InitialBalancesError {});
                    }

                    // Msgs to be executed to finalize setup""", """                    if total_supply.is_zero() {
                        return Err(ContractError::InitialBalancesError {});
                    }

                    // Msgs to be executed to finalize setup""")],
  demo="""
use cosmwasm_std::{Reply, SubMsgResponse, SubMsgResult};
use dao_interface::token::NewTokenInfo;
use dao_voting_token_staked::{contract, msg::TokenInfo, state};
#[test]
fn somebody_holds_the_token() {
    let mut deps = mock_dependencies();
    let env = mock_env();
    let s = &mut deps.storage;
    state::DAO.save(s, &Addr::unchecked("dao")).unwrap();
    state::TOKEN_INSTANTIATION_INFO.save(s, &TokenInfo::New(NewTokenInfo {
        token_issuer_code_id: 1,
        subdenom: "t".into(),
        metadata: None,
        initial_balances: vec![],
        initial_dao_balance: Some(Uint128::new(100)),
    })).unwrap();
    // MsgInstantiateContractResponse { contract_address: "issuer" }
    let data = [&[10u8, 6][..], b"issuer"].concat();
    let r = Reply { id: 0, result: SubMsgResult::Ok(SubMsgResponse { events: vec![], data: Some(data.into()) }) };
    for id in 0..4 {
        let r = Reply { id, ..r.clone() };
        assert!(contract::reply(deps.as_mut(), env.clone(), r).is_err());
    }
}
"""),
]
