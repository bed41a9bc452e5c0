S, M = "contracts/proposal/dao-proposal-single/src/contract.rs", "contracts/proposal/dao-proposal-multiple/src/contract.rs"
SEEDS = [
 dict(id="veto-after-failed-execution", property="C06", prelude="prelude_prop",
  needs="a multiple-choice proposal with a veto configuration that passed, executed and failed, then a veto by its vetoer",
  breaks="a proposal in a terminal state (execution failed) can still be vetoed",
  edits=[(M, """            if expiration.is_expired(&env.block) {
                return Err(ContractError::VetoError(VetoError::TimelockExpired {}));
            }
        }
        // generic""", """            if expiration.is_expired(&env.block) {
                return Err(ContractError::VetoError(VetoError::TimelockExpired {}));
            }
        }
        // nothing was executed
        Status::ExecutionFailed => (),
        // generic""")],
  demo="""
#[test]
fn failed_execution_is_final() {
    let mut i = multiple();
    i.veto = Some(VetoConfig { timelock_duration: Duration::Height(3), vetoer: OUT.into(), early_execute: false, veto_before_passed: false });
    let mut d = dao(|s| info(s.proposal_multiple_id, &i));
    propose2(&mut d, vec![option(vec![failing()]), option(vec![])]);
    vote2(&mut d, C, 1, 0).unwrap();
    vote2(&mut d, B, 1, 0).unwrap();
    d.blocks(20);
    d.exec(A, &dao_proposal_multiple::msg::ExecuteMsg::Execute { proposal_id: 1 }).unwrap();
    assert_eq!(get2(&d, 1).status, dao_voting::status::Status::ExecutionFailed);
    d.exec(OUT, &dao_proposal_multiple::msg::ExecuteMsg::Veto { proposal_id: 1 }).unwrap_err();
}
"""),
 dict(id="early-execute-by-outsider", property="C03", prelude="prelude_prop",
  needs="an open veto window with early execution enabled, members-only execution, and a caller who is neither vetoer nor member",
  breaks="someone without voting power executes a proposal inside its veto window",
  edits=[(S, """                if sender_can_execute {
                    return Err(ContractError::VetoError(VetoError::Timelocked {}));
                } else {
                    return Err(ContractError::Unauthorized {});
                }""", """                if sender_can_execute {
                    return Err(ContractError::VetoError(VetoError::Timelocked {}));
                } else if !veto_config.early_execute {
                    return Err(ContractError::Unauthorized {});
                }""")],
  demo="""
#[test]
fn outsiders_do_not_execute_in_the_veto_window() {
    let mut i = single();
    i.veto = Some(VetoConfig { timelock_duration: Duration::Height(30), vetoer: "vetoer".into(), early_execute: true, veto_before_passed: false });
    let mut d = dao(|s| info(s.proposal_single_id, &i));
    propose1(&mut d, vec![]);
    vote1(&mut d, C, 1, Vote::Yes).unwrap();
    vote1(&mut d, B, 1, Vote::Yes).unwrap();
    d.exec(OUT, &dao_proposal_single::msg::ExecuteMsg::Execute { proposal_id: 1 }).unwrap_err();
    d.exec("vetoer", &dao_proposal_single::msg::ExecuteMsg::Execute { proposal_id: 1 }).unwrap();
}
"""),
 dict(id="revote-keeps-old-weight", property="C04", prelude="prelude_prop",
  needs="a multiple-choice proposal with re-voting whose voter changes the vote to the none-of-the-above option",
  breaks="the replaced ballot's weight stays on the old option, so the tally is not the sum of the ballots",
  edits=[(M, """                    prop.votes
                        .remove_vote(current_ballot.vote, current_ballot.power)?;""", """                    if vote.option_id as usize + 1 < prop.choices.len() {
                        prop.votes
                            .remove_vote(current_ballot.vote, current_ballot.power)?;
                    }""")],
  demo="""
#[test]
fn tally_is_the_sum_of_ballots() {
    let mut i = multiple();
    i.allow_revoting = true;
    let mut d = dao(|s| info(s.proposal_multiple_id, &i));
    propose2(&mut d, vec![option(vec![]), option(vec![])]);
    vote2(&mut d, C, 1, 0).unwrap();
    vote2(&mut d, C, 1, 1).unwrap();
    vote2(&mut d, C, 1, 2).unwrap();
    let w = get2(&d, 1).votes.vote_weights;
    assert_eq!(w, vec![Uint128::zero(), Uint128::zero(), Uint128::new(3)]);
}
"""),
]
