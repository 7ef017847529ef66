pub use cosmian_abe_gpsw::*;
