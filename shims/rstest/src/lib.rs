// stub: only used from #[cfg(test)] code of the contracts
