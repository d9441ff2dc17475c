//! Explorer, reference model of the Thrift compact protocol, and reporting, for the checks in ../rt and ../pq.
//! Nothing in here depends on the code under test.
pub mod alloc;
pub mod cli;
pub mod explore;
pub mod gen;
pub mod sysx;
pub mod ty;
pub mod wire;

/// FNV-1a style 64-bit hash for state deduplication.
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // finalise, so that the low bits (used for sharding) depend on everything
    h ^= h >> 32;
    h = h.wrapping_mul(0x9E3779B97F4A7C15);
    h ^ (h >> 29)
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 400 {
        return format!("{}..({} bytes)", hex(&b[..64]), b.len());
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}
