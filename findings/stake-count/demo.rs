use cosmwasm_std::{testing::mock_dependencies, Timestamp, Uint128};
use cw_stake_tracker::StakeTracker;

fn t(s: u64) -> Timestamp {
    Timestamp::from_seconds(s)
}
fn v(s: &str) -> String {
    s.to_string()
}

/// tokens delegated while all the validator's stake unbonds stay counted once it has unbonded
#[test]
fn delegated_while_unbonding() {
    let s = &mut mock_dependencies().storage;
    let st = StakeTracker::new("s", "v", "c");
    st.on_delegate(s, t(0), v("a"), Uint128::new(10)).unwrap();
    st.on_undelegate(s, t(1), v("a"), Uint128::new(10), 100).unwrap();
    st.on_delegate(s, t(2), v("a"), Uint128::new(5)).unwrap();
    assert_eq!(st.validator_staked(s, t(101), v("a")).unwrap(), Uint128::new(5));
    assert_eq!(st.validator_cardinality(s, t(50)).unwrap(), 1);
    assert_eq!(st.validator_cardinality(s, t(101)).unwrap(), 1);
    // and all of them can be undelegated
    st.on_undelegate(s, t(102), v("a"), Uint128::new(5), 100).unwrap();
    assert_eq!(st.validator_cardinality(s, t(202)).unwrap(), 0);
}

/// a validator whose bonded tokens are redelegated is counted until the rest has unbonded
#[test]
fn redelegated_while_unbonding() {
    let s = &mut mock_dependencies().storage;
    let st = StakeTracker::new("s", "v", "c");
    st.on_delegate(s, t(0), v("a"), Uint128::new(10)).unwrap();
    st.on_undelegate(s, t(1), v("a"), Uint128::new(4), 100).unwrap();
    st.on_redelegate(s, t(2), v("a"), v("b"), Uint128::new(6)).unwrap();
    assert_eq!(st.validator_cardinality(s, t(2)).unwrap(), 2);
    assert_eq!(st.validator_staked(s, t(101), v("a")).unwrap(), Uint128::zero());
    assert_eq!(st.validator_cardinality(s, t(101)).unwrap(), 1);
}
