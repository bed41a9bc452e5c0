#![allow(unused)]
use cosmwasm_std::{coin, coins, to_json_binary, Addr, Coin, Empty, Timestamp, Uint128};
use cosmwasm_std::testing::{mock_dependencies, mock_env, mock_info};
use cw_multi_test::{App, BankSudo, Executor, SudoMsg};
use cw_utils::Duration;
use dao_testing::contracts::*;
