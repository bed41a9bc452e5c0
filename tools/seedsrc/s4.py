FUND = "contracts/distribution/cw-fund-distributor/src/contract.rs"
CORE = "contracts/dao-dao-core/src/contract.rs"
TOK = "contracts/voting/dao-voting-token-staked/src/contract.rs"
PAY = "contracts/external/cw-payroll-factory/src/contract.rs"
SEEDS = [
 dict(id="nothing-new-in-one-denom", property="C27", prelude="prelude_fund",
  needs="a member claiming several tokens at once, one of which it has claimed before",
  breaks="the whole claim is refused, though something is due in the other tokens",
  edits=[(FUND, """        // get % share of sender and subtract any previous claims
        let entitlement = get_entitlement(bal, relative_share, previous_claim)?;
        if !entitlement.is_zero() {
            // reflect the new total claim amount
            NATIVE_CLAIMS""", """        // get % share of sender and subtract any previous claims
        let entitlement = get_entitlement(bal, relative_share, previous_claim)?;
        if entitlement.is_zero() && !messages.is_empty() {
            return Err(ContractError::EmptyClaim {});
        }
        if !entitlement.is_zero() {
            // reflect the new total claim amount
            NATIVE_CLAIMS""")],
  demo="""
#[test]
fn a_claimed_denom_does_not_block_the_others() {
    let mut f = fund();
    let h = f.height();
    let d = f.distributor(h, 10);
    f.exec(&d, ADMIN, &ExecuteMsg::FundNative {}, &[coin(400, "uatom"), coin(4000, "ujuno")]).unwrap();
    f.blocks(11);
    f.exec(&d, A, &ExecuteMsg::ClaimNatives { denoms: vec!["ujuno".into()] }, &[]).unwrap();
    let was = f.bal(A, "uatom");
    f.exec(&d, A, &ExecuteMsg::ClaimNatives { denoms: vec!["uatom".into(), "ujuno".into()] }, &[]).unwrap();
    assert_eq!(f.bal(A, "uatom"), was + 100);
}
"""),
 dict(id="charter-never-changes", property="C24", prelude="prelude_prop",
  needs="a DAO naming a SubDAO that is listed already, with another charter",
  breaks="the list keeps the old charter, and the call reports success",
  edits=[(CORE, """        let addr = deps.api.addr_validate(&subdao.addr)?;
        SUBDAO_LIST.save(deps.storage, &addr, &subdao.charter)?;
""", """        let addr = deps.api.addr_validate(&subdao.addr)?;
        // listed once
        if SUBDAO_LIST.has(deps.storage, &addr) {
            continue;
        }
        SUBDAO_LIST.save(deps.storage, &addr, &subdao.charter)?;
""")],
  demo="""
#[test]
fn a_subdao_gets_the_charter_it_is_given() {
    let mut d = dao(|s| info(s.proposal_single_id, &single()));
    let core = d.core.clone();
    use dao_interface::{msg::{ExecuteMsg as E, QueryMsg as Q}, query::SubDao};
    for c in ["old", "new"] {
        let one = SubDao { addr: "subdaox".into(), charter: Some(c.into()) };
        d.exec_on(core.as_str(), &core, &E::UpdateSubDaos { to_add: vec![one], to_remove: vec![] }).unwrap();
    }
    let l: Vec<SubDao> = d.s.app.wrap().query_wasm_smart(&core, &Q::ListSubDaos { start_after: None, limit: None }).unwrap();
    assert_eq!(l[0].charter.as_deref(), Some("new"));
}
"""),
 dict(id="page-starts-with-the-last", property="C26", prelude="prelude_none",
  needs="paging backwards through the vesting contracts of one recipient",
  breaks="every page but the first repeats the last entry of the page before it",
  edits=[(PAY, """            let start = start_before.map(Bound::<String>::exclusive);

            // Validate recipient address""", """            let start = start_before.map(Bound::<String>::inclusive);

            // Validate recipient address""")],
  demo="""
use cw_payroll_factory::{contract::query, msg::QueryMsg, state::*};
#[test]
fn no_entry_is_on_two_pages() {
    let mut deps = mock_dependencies();
    for i in 0..6 {
        let contract = format!("contract{i}");
        let v = VestingContract { contract: contract.clone(), instantiator: format!("maker{}", i % 2), recipient: "recipient".into() };
        vesting_contracts().save(deps.as_mut().storage, &contract, &v).unwrap();
    }
    let (mut seen, mut before) = (vec![], None);
    for _ in 0..3 {
        let q = QueryMsg::ListVestingContractsByRecipientReverse { recipient: "recipient".into(), start_before: before.clone(), limit: Some(2) };
        let l: Vec<VestingContract> = cosmwasm_std::from_json(query(deps.as_ref(), mock_env(), q).unwrap()).unwrap();
        before = l.last().map(|v| v.contract.clone());
        seen.extend(l.into_iter().map(|v| v.contract));
    }
    assert_eq!(seen, (0..6).rev().map(|i| format!("contract{i}")).collect::<Vec<_>>());
}
"""),
]
