#![allow(unused)]
use cosmwasm_std::{to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Response, StdResult};
use cw4::{MemberChangedHookMsg, MemberDiff, MemberResponse};
use cw721_roles::msg::{ExecuteMsg, InstantiateMsg, QueryMsg};
use cw_multi_test::{App, ContractWrapper, Executor};
use cw_storage_plus::Item;
use dao_cw721_extensions::roles::{ExecuteExt, MetadataExt, QueryExt};
use dao_testing::contracts::cw721_roles_contract;

const DAO: &str = "dao";
const A: &str = "alice";
const B: &str = "bobby";

const HEARD: Item<Vec<MemberDiff>> = Item::new("heard");

#[cosmwasm_schema::cw_serde]
enum MemberChangedExecuteMsg {
    MemberChangedHook(MemberChangedHookMsg),
}

fn hear(deps: DepsMut, _: Env, _: MessageInfo, m: MemberChangedExecuteMsg) -> StdResult<Response> {
    let MemberChangedExecuteMsg::MemberChangedHook(m) = m;
    HEARD.save(deps.storage, &m.diffs)?;
    Ok(Response::default())
}

fn tell(deps: Deps, _: Env, _: Empty) -> StdResult<Binary> {
    to_json_binary(&HEARD.load(deps.storage)?)
}

fn setup() -> (App, Addr, Addr) {
    let mut app = App::default();
    let code = app.store_code(cw721_roles_contract());
    let l = app.store_code(Box::new(ContractWrapper::new(hear, |_: DepsMut, _: Env, _: MessageInfo, _: Empty| -> StdResult<Response> { Ok(Response::default()) }, tell)));
    let roles = app
        .instantiate_contract(code, Addr::unchecked(DAO), &InstantiateMsg { name: "r".into(), symbol: "r".into(), minter: DAO.into() }, &[], "r", None)
        .unwrap();
    let ear = app.instantiate_contract(l, Addr::unchecked(DAO), &Empty {}, &[], "l", None).unwrap();
    exec(&mut app, &roles, &ExecuteMsg::Extension { msg: ExecuteExt::AddHook { addr: ear.to_string() } });
    (app, roles, ear)
}

fn exec(app: &mut App, roles: &Addr, m: &ExecuteMsg) {
    app.execute_contract(Addr::unchecked(DAO), roles.clone(), m, &[]).unwrap();
}

fn mint(app: &mut App, roles: &Addr, id: &str, who: &str, weight: u64) {
    exec(app, roles, &ExecuteMsg::Mint { token_id: id.into(), owner: who.into(), token_uri: None, extension: MetadataExt { role: None, weight } });
}

fn weight(app: &App, roles: &Addr, who: &str) -> Option<u64> {
    let r: MemberResponse = app.wrap().query_wasm_smart(roles, &QueryMsg::Extension { msg: QueryExt::Member { addr: who.into(), at_height: None } }).unwrap();
    r.weight
}

fn heard(app: &App, ear: &Addr) -> Vec<MemberDiff> {
    app.wrap().query_wasm_smart(ear, &Empty {}).unwrap()
}

/// A decrease of a weight is told to the hooks.
#[test]
fn decrease() {
    let (mut app, roles, ear) = setup();
    mint(&mut app, &roles, "1", A, 10);
    exec(&mut app, &roles, &ExecuteMsg::Extension { msg: ExecuteExt::UpdateTokenWeight { token_id: "1".into(), weight: 3 } });
    assert_eq!(weight(&app, &roles, A), Some(3));
    assert_eq!(heard(&app, &ear), vec![MemberDiff::new(A, Some(10), Some(3))]);
}

/// The weight goes with the token, which the new owner can lose again.
#[test]
fn transfer() {
    let (mut app, roles, ear) = setup();
    mint(&mut app, &roles, "1", A, 10);
    exec(&mut app, &roles, &ExecuteMsg::TransferNft { recipient: B.into(), token_id: "1".into() });
    assert_eq!(weight(&app, &roles, A), None);
    assert_eq!(weight(&app, &roles, B), Some(10));
    assert_eq!(heard(&app, &ear), vec![MemberDiff::new(A, Some(10), None), MemberDiff::new(B, None, Some(10))]);
    exec(&mut app, &roles, &ExecuteMsg::Burn { token_id: "1".into() });
    assert_eq!(weight(&app, &roles, B), None);
}

/// A token without weight can be burned when its owner has nothing else left.
#[test]
fn weightless() {
    let (mut app, roles, _) = setup();
    mint(&mut app, &roles, "1", A, 10);
    mint(&mut app, &roles, "2", A, 0);
    exec(&mut app, &roles, &ExecuteMsg::Burn { token_id: "1".into() });
    exec(&mut app, &roles, &ExecuteMsg::Burn { token_id: "2".into() });
}
