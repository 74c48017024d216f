pub mod v1beta1;
