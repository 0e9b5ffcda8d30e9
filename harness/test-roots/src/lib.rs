//! Stand-in for the webpki-roots crate in the harness build only (see `[patch.crates-io]` in ../Cargo.toml):
//! trusts exactly one self-made test CA, so that the fake signBlob service can terminate the library's real HTTPS.
#![no_std]
use pki_types::{Der, TrustAnchor};
pub const TLS_SERVER_ROOTS: &[TrustAnchor<'static>] = &[TrustAnchor {
    subject: Der::from_slice(&[49,21,48,19,6,3,85,4,3,12,12,99,115,105,103,32,116,101,115,116,32,99,97]),
    subject_public_key_info: Der::from_slice(&[48,19,6,7,42,134,72,206,61,2,1,6,8,42,134,72,206,61,3,1,7,3,66,0,4,108,204,70,4,252,59,178,204,147,102,158,104,134,89,12,152,46,71,177,247,158,199,200,186,205,195,41,45,123,208,10,93,82,231,100,50,168,111,145,40,214,107,12,245,114,121,191,139,121,210,212,151,195,69,195,233,36,204,108,105,33,160,43,101]),
    name_constraints: None,
}];
