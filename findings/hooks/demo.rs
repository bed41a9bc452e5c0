#![allow(unused)]
use cosmwasm_std::{coins, to_json_binary, Addr, BankMsg, CosmosMsg, Empty, Uint128, WasmMsg};
use cw_multi_test::{App, Executor};
use cw_utils::Duration;
use dao_interface::state::{Admin, ModuleInstantiateInfo};
use dao_testing::*;
use dao_voting::pre_propose::PreProposeInfo;
use dao_voting::threshold::{PercentageThreshold, Threshold};
use dao_voting::veto::VetoConfig;
use dao_voting::voting::Vote;

const A: &str = "member1x";
const B: &str = "member2x";
const C: &str = "member3x";
const OUT: &str = "outsider";

fn info(code_id: u64, msg: &impl serde::Serialize) -> ModuleInstantiateInfo {
    ModuleInstantiateInfo { code_id, msg: to_json_binary(msg).unwrap(), admin: Some(Admin::CoreModule {}), funds: vec![], label: "m".into() }
}

fn single() -> dao_proposal_single::msg::InstantiateMsg {
    dao_proposal_single::msg::InstantiateMsg {
        threshold: Threshold::AbsolutePercentage { percentage: PercentageThreshold::Majority {} },
        max_voting_period: Duration::Height(10),
        min_voting_period: None,
        only_members_execute: true,
        allow_revoting: false,
        pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
        close_proposal_on_execution_failure: true,
        veto: None,
    }
}

fn multiple() -> dao_proposal_multiple::msg::InstantiateMsg {
    dao_proposal_multiple::msg::InstantiateMsg {
        voting_strategy: dao_voting::multiple_choice::VotingStrategy::SingleChoice { quorum: PercentageThreshold::Majority {} },
        max_voting_period: Duration::Height(10),
        min_voting_period: None,
        only_members_execute: true,
        allow_revoting: false,
        pre_propose_info: PreProposeInfo::AnyoneMayPropose {},
        close_proposal_on_execution_failure: true,
        veto: None,
    }
}

struct Dao {
    s: DaoTestingSuiteBase,
    core: Addr,
    voting: Addr,
    group: Addr,
    module: Addr,
}

/// A DAO of members A (1), B (2) and C (3) with one proposal module.
fn dao(f: impl Fn(&DaoTestingSuiteBase) -> ModuleInstantiateInfo) -> Dao {
    let mut s = DaoTestingSuiteBase::base();
    let m = |a: &str, w| cw4::Member { addr: a.into(), weight: w };
    let v = info(
        s.voting_cw4_id,
        &dao_voting_cw4::msg::InstantiateMsg {
            group_contract: dao_voting_cw4::msg::GroupContract::New { cw4_group_code_id: s.cw4_group_id, initial_members: vec![m(A, 1), m(B, 2), m(C, 3)] },
        },
    );
    let p = f(&s);
    let d = s.build(v, vec![p]);
    let group: Addr = s.app.wrap().query_wasm_smart(&d.voting_module_addr, &dao_voting_cw4::msg::QueryMsg::GroupContract {}).unwrap();
    let module = d.proposal_modules[0].address.clone();
    s.app.update_block(|b| b.height += 1);
    Dao { s, core: d.core_addr, voting: d.voting_module_addr, group, module }
}

impl Dao {
    fn exec(&mut self, who: &str, msg: &impl serde::Serialize) -> anyhow::Result<cw_multi_test::AppResponse> {
        let m = self.module.clone();
        self.exec_on(who, &m, msg)
    }
    fn exec_on(&mut self, who: &str, at: &Addr, msg: &impl serde::Serialize) -> anyhow::Result<cw_multi_test::AppResponse> {
        self.s.app.execute(
            Addr::unchecked(who),
            WasmMsg::Execute { contract_addr: at.to_string(), msg: to_json_binary(msg).unwrap(), funds: vec![] }.into(),
        )
    }
    fn blocks(&mut self, n: u64) {
        self.s.app.update_block(|b| b.height += n)
    }
}

fn propose1(d: &mut Dao, msgs: Vec<CosmosMsg>) {
    d.exec(
        A,
        &dao_proposal_single::msg::ExecuteMsg::Propose(dao_voting::proposal::SingleChoiceProposeMsg {
            title: "t".into(),
            description: "d".into(),
            msgs,
            proposer: None,
            vote: None,
        }),
    )
    .unwrap();
}

fn vote1(d: &mut Dao, who: &str, id: u64, vote: Vote) -> anyhow::Result<cw_multi_test::AppResponse> {
    d.exec(who, &dao_proposal_single::msg::ExecuteMsg::Vote { proposal_id: id, vote, rationale: None })
}

fn get1(d: &Dao, id: u64) -> dao_proposal_single::proposal::SingleChoiceProposal {
    let r: dao_proposal_single::query::ProposalResponse =
        d.s.app.wrap().query_wasm_smart(&d.module, &dao_proposal_single::msg::QueryMsg::Proposal { proposal_id: id }).unwrap();
    r.proposal
}

fn option(msgs: Vec<CosmosMsg>) -> dao_voting::multiple_choice::MultipleChoiceOption {
    dao_voting::multiple_choice::MultipleChoiceOption { title: "o".into(), description: "d".into(), msgs }
}

fn propose2(d: &mut Dao, options: Vec<dao_voting::multiple_choice::MultipleChoiceOption>) {
    d.exec(
        A,
        &dao_proposal_multiple::msg::ExecuteMsg::Propose(dao_voting::proposal::MultipleChoiceProposeMsg {
            title: "t".into(),
            description: "d".into(),
            choices: dao_voting::multiple_choice::MultipleChoiceOptions { options },
            proposer: None,
            vote: None,
        }),
    )
    .unwrap();
}

fn vote2(d: &mut Dao, who: &str, id: u64, option_id: u32) -> anyhow::Result<cw_multi_test::AppResponse> {
    d.exec(
        who,
        &dao_proposal_multiple::msg::ExecuteMsg::Vote {
            proposal_id: id,
            vote: dao_voting::multiple_choice::MultipleChoiceVote { option_id },
            rationale: None,
        },
    )
}

fn get2(d: &Dao, id: u64) -> dao_proposal_multiple::proposal::MultipleChoiceProposal {
    let r: dao_proposal_multiple::query::ProposalResponse =
        d.s.app.wrap().query_wasm_smart(&d.module, &dao_proposal_multiple::msg::QueryMsg::Proposal { proposal_id: id }).unwrap();
    r.proposal
}

/// a message that always fails
fn failing() -> CosmosMsg {
    BankMsg::Send { to_address: A.into(), amount: coins(1_000_000, "nothere") }.into()
}


// ---- a subscriber that keeps the last status it was told
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Response, StdError, StdResult};
use dao_hooks::proposal::{ProposalHookExecuteMsg, ProposalHookMsg};

fn inst(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    Ok(Response::new())
}
fn hear(deps: DepsMut, _: Env, _: MessageInfo, msg: ProposalHookExecuteMsg) -> StdResult<Response> {
    let ProposalHookExecuteMsg::ProposalHook(m) = msg;
    if let ProposalHookMsg::ProposalStatusChanged { new_status, .. } = m {
        deps.storage.set(b"last", new_status.as_bytes());
    }
    Ok(Response::new())
}
fn last(deps: Deps, _: Env, _: Empty) -> StdResult<Binary> {
    to_json_binary(&String::from_utf8(deps.storage.get(b"last").unwrap_or_default()).unwrap())
}

fn subscriber(d: &mut Dao) -> Addr {
    let c = d.s.app.store_code(Box::new(cw_multi_test::ContractWrapper::new(hear, inst, last)));
    d.s.app.instantiate_contract(c, Addr::unchecked(A), &Empty {}, &[], "sub", None).unwrap()
}

fn add_hook(d: &mut Dao, h: &str) {
    let core = d.core.to_string();
    d.exec(&core, &dao_proposal_single::msg::ExecuteMsg::AddProposalHook { address: h.into() }).unwrap();
}
fn add_vote_hook(d: &mut Dao, h: &str) {
    let core = d.core.to_string();
    d.exec(&core, &dao_proposal_single::msg::ExecuteMsg::AddVoteHook { address: h.into() }).unwrap();
}
fn hooks(d: &Dao, vote: bool) -> Vec<String> {
    use dao_proposal_single::msg::QueryMsg as Q;
    let q = if vote { Q::VoteHooks {} } else { Q::ProposalHooks {} };
    let r: cw_hooks::HooksResponse = d.s.app.wrap().query_wasm_smart(&d.module, &q).unwrap();
    r.hooks
}
fn start() -> Dao {
    dao(|s| info(s.proposal_single_id, &single()))
}

/// Two subscribers fail in the same call: both are removed, the working one stays, the call goes through.
#[test]
fn two_failing() {
    let mut d = start();
    let ok = subscriber(&mut d).to_string();
    add_hook(&mut d, "broken1x");
    add_hook(&mut d, "broken2x");
    add_hook(&mut d, &ok);
    propose1(&mut d, vec![]);
    assert_eq!(hooks(&d, false), vec![ok]);
}
#[test]
fn two_failing_last() {
    let mut d = start();
    add_vote_hook(&mut d, "broken1x");
    add_vote_hook(&mut d, "broken2x");
    propose1(&mut d, vec![]);
    vote1(&mut d, A, 1, Vote::Yes).unwrap();
    assert!(hooks(&d, true).is_empty());
}

/// The executed proposal takes a broken subscriber off the list; the others stay.
#[test]
fn removed_by_proposal() {
    let mut d = start();
    let ok = subscriber(&mut d).to_string();
    let m = WasmMsg::Execute {
        contract_addr: d.module.to_string(),
        msg: to_json_binary(&dao_proposal_single::msg::ExecuteMsg::RemoveProposalHook { address: "broken1x".into() }).unwrap(),
        funds: vec![],
    };
    propose1(&mut d, vec![m.into()]);
    vote1(&mut d, C, 1, Vote::Yes).unwrap();
    vote1(&mut d, B, 1, Vote::Yes).unwrap();
    add_hook(&mut d, "broken1x");
    add_hook(&mut d, &ok);
    d.exec(C, &dao_proposal_single::msg::ExecuteMsg::Execute { proposal_id: 1 }).unwrap();
    assert_eq!(hooks(&d, false), vec![ok]);
}

/// The last status a subscriber heard of is the stored one.
#[test]
fn failed_execution() {
    let mut d = start();
    let ok = subscriber(&mut d);
    add_hook(&mut d, ok.as_str());
    propose1(&mut d, vec![failing()]);
    vote1(&mut d, C, 1, Vote::Yes).unwrap();
    vote1(&mut d, B, 1, Vote::Yes).unwrap();
    d.exec(C, &dao_proposal_single::msg::ExecuteMsg::Execute { proposal_id: 1 }).unwrap();
    let heard: String = d.s.app.wrap().query_wasm_smart(&ok, &Empty {}).unwrap();
    assert_eq!(heard, get1(&d, 1).status.to_string());
}

/// A proposal that its proposer's vote passes is announced twice in one call: the broken subscriber goes, the other stays.
#[test]
fn announced_twice() {
    let mut d = dao(|s| {
        let mut m = single();
        m.threshold = Threshold::AbsoluteCount { threshold: Uint128::new(3) };
        info(s.proposal_single_id, &m)
    });
    let ok = subscriber(&mut d).to_string();
    add_hook(&mut d, "broken1x");
    add_hook(&mut d, &ok);
    d.exec(
        C,
        &dao_proposal_single::msg::ExecuteMsg::Propose(dao_voting::proposal::SingleChoiceProposeMsg {
            title: "t".into(),
            description: "d".into(),
            msgs: vec![],
            proposer: None,
            vote: Some(dao_voting::voting::SingleChoiceAutoVote { vote: Vote::Yes, rationale: None }),
        }),
    )
    .unwrap();
    assert_eq!(hooks(&d, false), vec![ok]);
}
