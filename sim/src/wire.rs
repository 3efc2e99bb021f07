//! Reference implementation of the section layer, written from ISO 13818-1 and EN 300 468.

/// CRC-32/MPEG-2, byte by byte; the table is checked against the published check value
pub fn crc32_fast(data: &[u8]) -> u32 {
    let t = table();
    let mut crc = 0xFFFF_FFFFu32;
    for &b in data {
        crc = (crc << 8) ^ t[((crc >> 24) as u8 ^ b) as usize];
    }
    crc
}

fn table() -> &'static [u32; 256] {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, v) in t.iter_mut().enumerate() {
            let mut c = (i as u32) << 24;
            for _ in 0 .. 8 {
                c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 };
            }
            *v = c;
        }
        let c = b"123456789".iter().fold(0xFFFF_FFFFu32, |c, b| (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize]);
        assert_eq!(c, 0x0376_E6E7);
        t
    })
}

pub fn be16(b: &[u8]) -> u16 { u16::from_be_bytes([b[0], b[1]]) }

pub fn put16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_be_bytes()); }

/// Section from table_id, the four bits before the length, and everything after the length.
/// Appends the CRC if `crc` is set.
pub fn section(table_id: u8, nibble: u8, body: &[u8], crc: bool) -> Vec<u8> {
    let len = body.len() + if crc { 4 } else { 0 };
    let mut s = vec![table_id, (nibble << 4) | (len >> 8) as u8, len as u8];
    s.extend_from_slice(body);
    if crc {
        let c = crc32_fast(&s);
        s.extend_from_slice(&c.to_be_bytes());
    }
    s
}

pub fn fix_crc(s: &mut [u8]) {
    let n = s.len();
    let c = crc32_fast(&s[.. n - 4]);
    s[n - 4 ..].copy_from_slice(&c.to_be_bytes());
}

/// Length and CRC are right
pub fn valid(s: &[u8]) -> bool {
    s.len() >= 8 &&
        3 + (usize::from(be16(&s[1 ..])) & 0x0FFF) == s.len() &&
        crc32_fast(&s[.. s.len() - 4]) == u32::from_be_bytes(s[s.len() - 4 ..].try_into().unwrap())
}

pub fn bcd(v: u64, digits: u32) -> u64 {
    let mut out = 0;
    let mut x = v;
    for i in 0 .. digits {
        out |= (x % 10) << (4 * i);
        x /= 10;
    }
    out
}

pub fn unbcd(v: u64, digits: u32) -> u64 {
    let mut out = 0;
    for i in (0 .. digits).rev() {
        out = out * 10 + ((v >> (4 * i)) & 0x0F);
    }
    out
}

/// MJD and BCD time of day, 5 bytes
pub fn put_time(v: &mut Vec<u8>, t: u64) {
    put16(v, (t / 86400 + 40587) as u16);
    let s = t % 86400;
    v.push(bcd(s / 3600, 2) as u8);
    v.push(bcd(s / 60 % 60, 2) as u8);
    v.push(bcd(s % 60, 2) as u8);
}

pub fn get_time(b: &[u8]) -> u64 {
    u64::from(be16(b)).saturating_sub(40587) * 86400 +
        unbcd(u64::from(b[2]), 2) * 3600 + unbcd(u64::from(b[3]), 2) * 60 + unbcd(u64::from(b[4]), 2)
}
