#![allow(unused)]
use cosmwasm_std::{coin, coins, to_json_binary, Addr, Coin, Empty, Uint128};
use cw_fund_distributor::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, NativeEntitlementResponse, QueryMsg};
use cw_multi_test::{App, BankSudo, Executor, SudoMsg};
use cw_utils::Duration;
use dao_testing::contracts::*;

const A: &str = "member1x";
const B: &str = "member2x";
const ADMIN: &str = "adminx";

struct Fund {
    app: App,
    group: Addr,
    voting: Addr,
    code: u64,
}

/// A cw4 group of A (10) and B (30) behind a voting module.
fn fund() -> Fund {
    let mut app = App::default();
    let g = app.store_code(cw4_group_contract());
    let v = app.store_code(dao_voting_cw4_contract());
    let code = app.store_code(cw_fund_distributor_contract());
    let m = |a: &str, w| cw4::Member { addr: a.into(), weight: w };
    let group = app
        .instantiate_contract(g, Addr::unchecked(ADMIN), &cw4_group::msg::InstantiateMsg { admin: Some(ADMIN.into()), members: vec![m(A, 10), m(B, 30)] }, &[], "g", None)
        .unwrap();
    let voting = app
        .instantiate_contract(v, Addr::unchecked(ADMIN), &dao_voting_cw4::msg::InstantiateMsg { group_contract: dao_voting_cw4::msg::GroupContract::Existing { address: group.to_string() } }, &[], "v", None)
        .unwrap();
    let mut f = Fund { app, group, voting, code };
    f.blocks(1);
    for w in [A, B, ADMIN] {
        f.app.sudo(SudoMsg::Bank(BankSudo::Mint { to_address: w.into(), amount: vec![coin(1_000_000, "ujuno"), coin(1_000_000, "uatom")] })).unwrap();
    }
    f
}

impl Fund {
    fn blocks(&mut self, n: u64) {
        self.app.update_block(|b| {
            b.height += n;
            b.time = b.time.plus_seconds(5 * n);
        });
    }
    fn height(&self) -> u64 {
        self.app.block_info().height
    }
    fn set(&mut self, who: &str, w: u64) {
        let m = cw4_group::msg::ExecuteMsg::UpdateMembers { remove: vec![], add: vec![cw4::Member { addr: who.into(), weight: w }] };
        self.app.execute_contract(Addr::unchecked(ADMIN), self.group.clone(), &m, &[]).unwrap();
        self.blocks(1);
    }
    fn distributor(&mut self, height: u64, period: u64) -> Addr {
        self.app
            .instantiate_contract(
                self.code,
                Addr::unchecked(ADMIN),
                &InstantiateMsg { voting_contract: self.voting.to_string(), funding_period: Duration::Height(period), distribution_height: height },
                &[],
                "d",
                Some(ADMIN.into()),
            )
            .unwrap()
    }
    fn exec(&mut self, d: &Addr, who: &str, m: &ExecuteMsg, funds: &[Coin]) -> anyhow::Result<cw_multi_test::AppResponse> {
        self.app.execute_contract(Addr::unchecked(who), d.clone(), m, funds)
    }
    fn bal(&self, who: &str, denom: &str) -> u128 {
        self.app.wrap().query_balance(who, denom).unwrap().amount.u128()
    }
}
