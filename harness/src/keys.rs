//! Fixture keys and the ways to load them.
use cloud_storage_signature::SigningKey;
use ring::signature::RsaKeyPair;

pub struct Fix {
    pub name: &'static str,
    pub pem: &'static str,
    pub public: &'static [u8],
    pub bits: usize,
}

macro_rules! fix {
    ($n:literal, $b:literal) => {
        Fix {
            name: $n,
            pem: include_str!(concat!("../fixtures/", $n, ".pem")),
            public: include_bytes!(concat!("../fixtures/", $n, ".pub.der")),
            bits: $b,
        }
    };
}

/// `rsa2048e` has the public exponent 4294967311.
pub static FIX: &[Fix] = &[fix!("rsa2048a", 2048), fix!("rsa2048b", 2048), fix!("rsa3072", 3072), fix!("rsa4096", 4096), fix!("rsa2048e", 2048)];
pub static PKCS1: &str = include_str!("../fixtures/rsa2048a.pkcs1.pem");
pub static EC: &str = include_str!("../fixtures/ec.pem");
pub static ED25519: &str = include_str!("../fixtures/ed25519.pem");
pub static RSA1024: &str = include_str!("../fixtures/rsa1024.pem");

pub fn der_of(pem: &str) -> Vec<u8> {
    let body: String = pem.lines().filter(|l| !l.starts_with('-')).collect();
    crate::model::unb64(&body).expect("fixture")
}

pub fn pair(i: usize) -> RsaKeyPair {
    RsaKeyPair::from_pkcs8(&der_of(FIX[i].pem)).expect("fixture key")
}

pub fn rsa_sign(k: &RsaKeyPair, msg: &[u8]) -> Vec<u8> {
    let mut sig = vec![0; k.public().modulus_len()];
    k.sign(&ring::signature::RSA_PKCS1_SHA256, &ring::rand::SystemRandom::new(), msg, &mut sig).expect("sign");
    sig
}

pub fn sa_json(email: &str, pem: &str) -> String {
    serde_json::json!({
        "type": "service_account", "project_id": "p", "private_key_id": "0",
        "private_key": pem, "client_email": email, "client_id": "1",
    })
    .to_string()
}

/// The same service-account key through one of its constructors.
pub fn load_sa(how: u64, email: &str, pem: &str, scratch: &std::path::Path) -> SigningKey {
    // all texts of one size, so that a later key can take the place of an earlier one in memory
    let padded;
    let pem = if (how >> 8) % 2 == 0 {
        padded = format!("{pem:\n<3328}");
        &padded
    } else {
        pem
    };
    match how % 4 {
        0 => SigningKey::service_account(email.to_string(), pem.to_string()),
        1 => SigningKey::service_account_from_str(sa_json(email, pem)).ok().expect("service_account_from_str"),
        2 => {
            let p = scratch.join("key.json");
            std::fs::write(&p, sa_json(email, pem)).expect("scratch");
            SigningKey::service_account_from_path(&p).ok().expect("service_account_from_path")
        }
        _ => SigningKey::service_account(email.to_string(), pem.to_string()).clone(),
    }
}

/// Keys this process keeps and signs with again and again, over the whole of its life.
static KEPT: std::sync::Mutex<Vec<(String, usize, SigningKey)>> = std::sync::Mutex::new(Vec::new());

/// One of the kept keys with its account and key pair; a new one joins them while there are few.
pub fn kept(pick: u64, email: &str, fix: usize, scratch: &std::path::Path) -> (String, usize, SigningKey) {
    let mut l = KEPT.lock().unwrap_or_else(|e| e.into_inner());
    if l.len() < 3 {
        let k = (email.to_string(), fix, load_sa(pick, email, FIX[fix].pem, scratch));
        l.push(k.clone());
        return k;
    }
    let n = l.len() as u64;
    // one of the three gets most of the work
    l[if pick % 10 < 6 { 0 } else { (pick / 16 % n) as usize }].clone()
}
