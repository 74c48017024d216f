pub mod cosmos;
pub mod osmosis;
