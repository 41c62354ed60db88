//! Independent references for the authentication formulas, OAEP and the encodings of keys.
use {
    base64::Engine as _,
    num::BigUint,
    sha1::{Digest, Sha1},
    sha2::Sha256,
};

pub struct Key {
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
}
const KEYS: &[(&str, u32, &str)] = &[
    ("a077ee6a6d76e9b67956ac4b93ba71e1583f3c9e8171ccf9ea43ff074934ec1112c94edbbe4f5faa2e85ba45d9d3a7a9d7ecc55b7c54bf375efd1e3ad67453a3ec010d8193cac26c0d4e03fe43a4524ec99d6ba719ebf3159370154c04f2865fd94d3272be1633a4f489cfa68b9014db86f6cab53e1aa5f8915e5ff45a599ff1a6df8a87e775da9d540cba67c7f3e811c74e6b0aa1fece778049b1f25f6e52d428d414868880db14a27b9a2435a1192f4916af974870e174a5a9b506c4a22a92bc58c68de0f562035687999454b1c7adc76dccafe3a2f34d6fd1528a389c4187d0b60f267b807e8b317c5d1bb5d409896cb3a22ce0e889f1afe11ed4879db1ad", 65537, "8e7a0e01071256eec28b974d3f6c82a28f650e60ba141de823fd9d998d8164bcc00e676b2a6d7546382a5a3a9cee95667326721109b281591b88e8675b744bb336dfb46b419afcc74d84e07cc8f844705a08e0c5ac79580ae72ed469fbd68e42da40f5b2f55de71ae658da3b489d74377a7cf37cbb189416c093a7e4e0b7c50f33d8ccf5356bd8992b68c0c2a045102497c1eadc5e95ede62c5ba6dea7f2e19ab1716c96545102746ad949f72afb71849af277b9cded7d1a158cdc2a9e0c887381ab652fe8c6c7fb4891d0bdbb7a36c72c63ce4fc8d19e2dbcb480f0dfeb621ce3a849c6fa873a9a2ae323018439a660e476de62f5e2aeeb5a9726925138b121"),
    ("a3925afd6bb8f6323bcda505d897bf5f261c7ee2fc00cc5d5e58f34a9b5476a00d0e898c2376f706fc5d806185c817680971cca9d7c4e4a9673e8857fe93fc2a35ed7d5a987aab3e8cf04c81101831326a1f95057531cc8e976fc2cd166c403b85e179f746331a819134e9600b193d505a6d32f16d13580e66006304f3584ac9", 65537, "ce754ca3d1f403cc23efccfb34075565a39514132c4155b204040211893d72fd517da7df5a642e288321018a1672181918d2aaa135d72f472329aaae668623209ac1bf677e6fef1a697427b3bb5a26a580cb2989f477aee5f5d88d0fd6be1afb9139d8045f953ab706edbe960924142c1be1bbfdf953976e66d1f067bc22521"),
    ("539851169d32be26a4b7292c042ae39b8567baf14dc17c589d92faec77b72e78dcab52bab2f1d2c87287b4419b9c4f32f3730c5b90ba907c838bc8074bfdb448d2cc1d298145feeb12d9b09f09a162ef423786a4a18b696ec133b47504817317687676f47bf351a6087ece67de90cae80588598d13ae3ee7352249b20aa483ed", 65537, "b373f81f23b71a9cba5cb7f5d5bc7c8010126e2e354d773284925237ef873e2c170b71bd7907c806a656cb8f4c0e71b65f084b2f05b27b19d10af18d388499ce48369990af8ec65cdce06536b95c13d1789ae432278ae3e78e3999adba071e6ceb5f1dae768427e4f122ec70d4bd585bbcbeaf47f6d0d87b047f50888e56161"),
    ("13b07e192bb668159a35acbd149ee2c6d8dfe8e4d1192b235c00e71dc40075099cd0c8f1d4efc9d84646cd111f380534cab0877aa38f2a4d203d236cde09a0b46b2677fa726cd9caf199d8b204ed389718adcc833b03c4aec4e8183d4db75070de96ad006559b63dcc16c6fab4e1d6d083d4d93f4ec9258cd2128ed27bbab7f", 3, "d205410c7cef00e66ce7328b869ec84909545ede0bb721792ab44be82aaf8b11335db4be34a86902ed9de0b6a2558cddc75afa717b4c6de157e179de95bc076c80a7c049c75944dc51b62f6451eee7a051cdc552f93bc58aea944eba526cc7cf6c8dd5a904b388521ec51e7499b8115fa0c724902e2e548f3992f2ffd4643b"),
    ("8cfe00e990ed6e6bd8a0c1576b6cf6bcc90bc38e9075563fbb5a91f0b7a5be4fd701ac2bb2db7d5748f654b6673959279f2bd0792b7311ef18da9c6b9bd8a4450bd82ae7052035688b241c980a37442dd3aac9433e5bd570d85887fbd80f57866b10123d8f5446a8f66ea4ebeb25aed18f28d22619a05c4e060bb594e9ad6b", 65537, "41a93551910e1223a59250185f4e32a67ed6bcaf1335a20232459ebbc53b2a23529553d2520c8815f343ccf5d9a2ca937a3c546d69bfc0356294c4ce149952f448c0ed197602aa212a56238d9bbb8d6a1d9f6d52cdaca71790353c938432fc0710d7dc489958e58ac8f97d5780675eaaa16971749461cadb42546a8ef93a19"),
    ("d23cf264daaa223cbac779cf445a3f8ab4db7cc6602b3981e863ff0e9522ca00a91f2818d3cbe13662ba5789a0e2dfa4bf3819e23bfc5caf2e12e1f58b40c3e60e1d8bf066d326018c4ef3aca1b80b9a9ed59432810c535527925fbb2057f811d9", 17, "62ef812066e6a6b32ab839527a84d29ba06749c6c3d81b0ff4e3c35228105f0f5ea5400baef6881997df3840c42e875c8892e551416021b949e2e6a4484ccd82437aa52abf7e27a6fe7fe5c6e328d30336caf3b8c1222ca11b9f2a47f7850f6411"),
    ("91b017696c6070db6b5ace7ee20a3e4c7098958d9ea615f65646ae11869423e39a24760320ad9636e5c769", 65537, "8da3382fab48db8fc700628fa2ecb882925915d4b857e714a75a98031c54aaae8237151eff49b15be1d30d"),
    ("5fe40ec4ce1a60898145bb559823d077e8972a7be9a1a75acbb7085eb397c820d5f73f47f97facd85a5131", 65537, "28c9d472688d15c547c4c6a3e91c4adfc6830ea238bcf16a7fba07596cf393b99fbc00eef5af62273e9ec5"),
];
pub fn keys() -> Vec<Key> {
    let big = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap();
    KEYS.iter().map(|(n, e, d)| Key { n: big(n), e: BigUint::from(*e), d: big(d) }).collect()
}

pub fn sha1(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha1::new();
    for p in parts { Digest::update(&mut h, p); }
    h.finalize().to_vec()
}
pub fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts { Digest::update(&mut h, p); }
    h.finalize().to_vec()
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(a, b)| a ^ b).collect() }

/// mysql_native_password
pub fn native(nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    if pw.is_empty() { return Vec::new(); }
    let one = sha1(&[pw]);
    let two = sha1(&[&one]);
    xor(&one, &sha1(&[nonce, &two]))
}
/// The server's view: it knows only SHA1(SHA1(pw)).
pub fn native_verifies(nonce: &[u8], stored: &[u8], response: &[u8]) -> bool {
    response.len() == 20 && sha1(&[&xor(response, &sha1(&[nonce, stored]))]) == stored
}
/// caching_sha2_password
pub fn sha2(nonce: &[u8], pw: &[u8]) -> Vec<u8> {
    if pw.is_empty() { return Vec::new(); }
    let one = sha256(&[pw]);
    let two = sha256(&[&one]);
    xor(&one, &sha256(&[&two, nonce]))
}

fn mask(seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < len { out.extend(sha1(&[seed, &i.to_be_bytes()])); i += 1; }
    out.truncate(len);
    out
}
/// RFC 8017, 7.1.2 step 3, for the empty label: the seed and the message.
pub fn oaep_decode(em: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if em.len() < 42 || em[0] != 0 { return None; }
    let (s, db) = em[1..].split_at(20);
    let seed = xor(s, &mask(db, 20));
    let db = xor(db, &mask(&seed, db.len()));
    if db[..20] != sha1(&[])[..] { return None; }
    let at = 20 + db[20..].iter().position(|b| *b != 0)?;
    (db[at] == 1).then(|| (seed, db[at + 1..].to_vec()))
}
pub fn rsa(x: &[u8], k: &BigUint, n: &BigUint, len: usize) -> Vec<u8> {
    let y = BigUint::from_bytes_be(x).modpow(k, n).to_bytes_be();
    let mut out = vec![0; len.saturating_sub(y.len())];
    out.extend(y);
    out
}
impl Key {
    pub fn octets(&self) -> usize { let b = self.n.bits() as usize; b / 8 + usize::from(b % 8 != 0) }
    /// What the holder of the private key reads.
    pub fn open(&self, block: &[u8]) -> Option<Vec<u8>> {
        if block.len() != self.octets() { return None; }
        Some(oaep_decode(&rsa(block, &self.d, &self.n, self.octets()))?.1)
    }
}

/// A DER length in its shortest form, or with `extra` needless leading zero bytes.
pub fn der_len(n: usize, extra: usize) -> Vec<u8> {
    if n < 128 && extra == 0 { return vec![n as u8]; }
    let mut b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|b| *b == 0).collect();
    if b.is_empty() { b.push(0); }
    let mut out = vec![0x80 | (b.len() + extra) as u8];
    out.extend(vec![0; extra]);
    out.extend(b);
    out
}
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut out = vec![tag];
    out.extend(der_len(body.len(), 0));
    out.extend(body);
    out
}
pub fn der_uint(n: &BigUint) -> Vec<u8> {
    let mut b = n.to_bytes_be();
    if b[0] & 0x80 != 0 { b.insert(0, 0); }
    tlv(2, &b)
}
pub fn pkcs1(n: &BigUint, e: &BigUint) -> Vec<u8> { tlv(0x30, &[der_uint(n), der_uint(e)].concat()) }
pub fn pkcs8(n: &BigUint, e: &BigUint) -> Vec<u8> {
    let alg = tlv(0x30, &[tlv(6, &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1]), vec![5, 0]].concat());
    let mut bits = vec![0];
    bits.extend(pkcs1(n, e));
    tlv(0x30, &[alg, tlv(3, &bits)].concat())
}
pub fn pem(der: &[u8], label: &str, width: usize, eol: &str) -> Vec<u8> {
    let b = base64::engine::general_purpose::STANDARD.encode(der);
    let mut out = format!("-----BEGIN {label}-----{eol}");
    for c in b.as_bytes().chunks(width) { out += std::str::from_utf8(c).unwrap(); out += eol; }
    out += &format!("-----END {label}-----{eol}");
    out.into_bytes()
}
