mod recover_pubkey_error;
mod std_error;
mod system_error;
mod verification_error;

pub use recover_pubkey_error::RecoverPubkeyError;
pub use std_error::{
    CheckedFromRatioError, CheckedMultiplyFractionError, CheckedMultiplyRatioError,
    CoinFromStrError, CoinsError, ConversionOverflowError, DivideByZeroError, DivisionError,
    OverflowError, OverflowOperation, RoundDownOverflowError, RoundUpOverflowError, StdError,
    StdResult,
};
pub use system_error::SystemError;
pub use verification_error::VerificationError;
