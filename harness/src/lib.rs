pub mod airdrop;
pub mod math;
pub mod core_fee;
pub mod core_gov;
pub mod core_life;
pub mod core_query;
pub mod core_rebalance;
pub mod core_token;
pub mod core_util;
pub mod env;
pub mod periphery;
pub mod pool;
pub mod sym;

macro_rules! entries {
    ($($m:ident { $($f:ident)* })*) => {
        #[cfg(feature = "sym")]
        mod exports {
            $($( #[no_mangle] pub extern "C" fn $f() { crate::$m::$f() } )*)*
        }
        pub fn run(name: &str) {
            match name {
                $($( stringify!($f) => crate::$m::$f(), )*)*
                _ => panic!("no such entry"),
            }
        }
    };
}
entries! {
    pool { h_wp_in h_wp_out h_wp_80_20 h_wp_20_80 h_wp_1_2 h_wp_unknown h_wp_shared h_routes_parse h_routes_malformed h_routes_messages h_pool_ids h_pools h_limits }
    math { h_pow_edges h_pow_int h_pow_int_5 h_pow_frac h_pow_frac_any h_pow_frac_wide h_pow_split }
    airdrop { h_air_register h_air_register_bearer h_air_new h_air_fund h_air_claim h_air_claim_3 h_air_claim_5 h_air_claim_8 h_air_claim_small h_air_root h_air_bearer_form h_air_claim_once h_air_close h_air_solvency h_air_bearer h_air_bearer_key h_air_bearer_who h_air_bearer_small h_air_bearer_once h_air_kind h_air_verify h_air_verify_anonymous h_air_get h_air_list h_air_list_claims h_air_labels }
    periphery { h_per_mint_out h_per_mint_out_2 h_per_mint_out_live h_per_finish h_per_mint_in h_per_mint_in_2 h_per_mint_in_hops h_per_mint_in_hops_3 h_per_burn_in h_per_burn_in_2 h_per_burn_out h_per_burn_out_2 h_per_burn_out_hops h_per_burn_out_hops_3 h_per_sim_mint_out h_per_sim_mint_out_2 h_per_sim_burn_in h_per_sim_burn_in_2 h_per_sim_mint_in h_per_sim_mint_in_2 h_per_sim_mint_in_hops h_per_sim_burn_out h_per_sim_burn_out_2 h_per_sim_burn_out_hops h_per_sim_mint_in_deep h_per_sim_burn_out_deep }
    core_life { h_instantiate h_first_mint h_migrate h_migrate_unknown }
    core_query { h_sim_mint_4 h_sim_mint_streaming_3 h_sim_burn_4 h_sim_burn_streaming_3 h_sim_mint_3 h_sim_mint_streaming_2 h_sim_mint_need_3 h_sim_mint_need_streaming h_sim_burn_3 h_sim_burn_streaming_2 h_sim_burn_holds_2 h_sim_burn_holds_streaming h_reported_3 h_reported_streaming_2 h_sim_mint h_sim_mint_streaming h_sim_mint_need h_sim_burn h_sim_burn_streaming h_sim_burn_holds h_reported h_reported_streaming h_settings }
    core_gov { h_pause_token h_pause_gov h_pause_query h_gov_auth h_gov_effect h_gov_handover h_trade_info h_trade_list }
    core_rebalance { h_init h_init_lists h_init_auth h_exclusive h_cycle h_reb_auth h_deflate h_deflate_2 h_deflate_3 h_deflate_3_2 h_deflate_live h_inflate h_inflate_2 h_inflate_live h_cooldown h_direct h_finalize h_no_fee_for_rebalance h_solvency_trade h_solvency_direct }
    core_fee { h_accrue_3 h_solvency_3 h_accrue h_accrue_2 h_accrue_order h_accrue_restart h_accrue_none h_accrue_live h_accrue_over100 h_realize h_realize_live h_strategy_payout h_fee_update h_fee_instantiate h_solvency h_solvency_streaming h_solvency_2 h_solvency_streaming_2 }
    core_token { h_mint h_mint_3 h_mint_4 h_mint_5 h_mint_streaming_4 h_burn_5 h_burn_streaming_4 h_round_trip_4 h_round_trip_streaming_3 h_mint_to h_mint_by h_burn_by h_mint_streaming h_mint_streaming_3 h_mint_live h_burn h_burn_3 h_burn_4 h_burn_streaming h_burn_streaming_3 h_burn_live h_round_trip h_round_trip_3 h_round_trip_streaming h_round_trip_streaming_2 h_split }
}
