#![allow(unused)]
use cosmwasm_std::{coin, coins, Addr, Coin, Empty, Uint128};
use cw4::Member;
use cw_multi_test::{App, BankSudo, Executor, SudoMsg};
use cw_utils::Duration;
use dao_rewards_distributor::msg::{CreateMsg, ExecuteMsg, FundMsg, InstantiateMsg, PendingRewardsResponse, QueryMsg};
use dao_rewards_distributor::state::{DistributionState, EmissionRate};
use dao_testing::contracts::*;

const A: &str = "member1x";
const B: &str = "member2x";
const ADMIN: &str = "adminx";

struct Rew {
    app: App,
    group: Addr,
    voting: Addr,
    rew: Addr,
}

/// A rewards distributor owned by ADMIN, hooked to a cw4 group of A (10) and B (10) behind a voting module.
fn rew() -> Rew {
    let mut app = App::default();
    let g = app.store_code(cw4_group_contract());
    let v = app.store_code(dao_voting_cw4_contract());
    let r = app.store_code(dao_rewards_distributor_contract());
    let m = |a: &str, w| Member { addr: a.into(), weight: w };
    let admin = Addr::unchecked(ADMIN);
    let group = app
        .instantiate_contract(g, admin.clone(), &cw4_group::msg::InstantiateMsg { admin: Some(ADMIN.into()), members: vec![m(A, 10), m(B, 10)] }, &[], "g", None)
        .unwrap();
    let voting = app
        .instantiate_contract(v, admin.clone(), &dao_voting_cw4::msg::InstantiateMsg { group_contract: dao_voting_cw4::msg::GroupContract::Existing { address: group.to_string() } }, &[], "v", None)
        .unwrap();
    let rew = app.instantiate_contract(r, admin.clone(), &InstantiateMsg { owner: Some(ADMIN.into()) }, &[], "r", None).unwrap();
    app.execute_contract(admin, group.clone(), &cw4_group::msg::ExecuteMsg::AddHook { addr: rew.to_string() }, &[]).unwrap();
    let mut f = Rew { app, group, voting, rew };
    f.blocks(1);
    for w in [A, B, ADMIN] {
        f.app.sudo(SudoMsg::Bank(BankSudo::Mint { to_address: w.into(), amount: vec![coin(1_000_000, "ujuno"), coin(1_000_000, "uatom")] })).unwrap();
    }
    f
}

fn linear(amount: u128, blocks: u64, continuous: bool) -> EmissionRate {
    EmissionRate::Linear { amount: Uint128::new(amount), duration: Duration::Height(blocks), continuous }
}

impl Rew {
    fn blocks(&mut self, n: u64) {
        self.app.update_block(|b| {
            b.height += n;
            b.time = b.time.plus_seconds(5 * n);
        });
    }
    /// sets a member's weight (the distributor hears of it); takes no block
    fn set(&mut self, who: &str, w: u64) {
        let m = cw4_group::msg::ExecuteMsg::UpdateMembers { remove: vec![], add: vec![Member { addr: who.into(), weight: w }] };
        self.app.execute_contract(Addr::unchecked(ADMIN), self.group.clone(), &m, &[]).unwrap();
    }
    fn exec(&mut self, who: &str, msg: &ExecuteMsg, funds: &[Coin]) -> Result<(), String> {
        let r = self.rew.clone();
        self.app.execute_contract(Addr::unchecked(who), r, msg, funds).map(|_| ()).map_err(|e| format!("{:?}", e))
    }
    fn create(&mut self, emission_rate: EmissionRate, funds: u128) -> u64 {
        let m = ExecuteMsg::Create(CreateMsg {
            denom: cw20::UncheckedDenom::Native("ujuno".into()),
            emission_rate,
            vp_contract: self.voting.to_string(),
            hook_caller: self.group.to_string(),
            open_funding: None,
            withdraw_destination: None,
        });
        self.exec(ADMIN, &m, &if funds > 0 { coins(funds, "ujuno") } else { vec![] }).unwrap();
        1
    }
    fn fund(&mut self, id: u64, n: u128) -> Result<(), String> {
        self.exec(ADMIN, &ExecuteMsg::Fund(FundMsg { id }), &coins(n, "ujuno"))
    }
    fn claim(&mut self, who: &str, id: u64) -> Result<(), String> {
        self.exec(who, &ExecuteMsg::Claim { id }, &[])
    }
    fn state(&self, id: u64) -> DistributionState {
        self.app.wrap().query_wasm_smart(&self.rew, &QueryMsg::Distribution { id }).unwrap()
    }
    fn pending(&self, who: &str, id: u64) -> u128 {
        let r: PendingRewardsResponse = self.app.wrap().query_wasm_smart(&self.rew, &QueryMsg::PendingRewards { address: who.into(), start_after: None, limit: None }).unwrap();
        r.pending_rewards.iter().filter(|x| x.id == id).map(|x| x.pending_rewards.u128()).sum()
    }
    fn bal(&self, who: &str) -> u128 {
        self.app.wrap().query_balance(who, "ujuno").unwrap().amount.u128()
    }
}

/// 1000 per 100 blocks; after 100 blocks the two equal members have earned 500 each
#[test]
fn without_a_change_of_power() {
    let mut f = rew();
    f.create(linear(1000, 100, false), 10_000);
    f.blocks(100);
    assert_eq!((f.pending(A, 1), f.pending(B, 1)), (500, 500));
}

/// a change of power every 50 blocks (here of B, to what it was): nobody ever earns anything, and the owner
/// cannot withdraw what was not paid either
#[test]
fn with_changes_of_power() {
    let mut f = rew();
    f.create(linear(1000, 100, false), 10_000);
    for _ in 0..20 {
        f.blocks(50);
        f.set(B, 10);
    }
    assert_eq!((f.pending(A, 1), f.pending(B, 1)), (5_000, 5_000));
}
