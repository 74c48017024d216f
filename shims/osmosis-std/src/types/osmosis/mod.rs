pub mod poolmanager;
pub mod tokenfactory;
