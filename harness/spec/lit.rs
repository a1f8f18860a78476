// C14: number literals, bytes and words: parse_literal, decode_hex, get_u64, put_u64.
use crate::isa::{ConditionCode, RegFile};
use crate::object::BIN_SIZE;
use crate::utils::{decode_hex, get_u64, parse_literal, put_u64};

pub fn asm_line_head(_: &mut u64) {}
pub fn isa_loop_head(_: &mut [u8; BIN_SIZE], _: &mut usize, _: &mut ConditionCode, _: &mut RegFile, _: &mut u64) {}

/// the value of a hexadecimal digit, 16 if it is none
#[inline(never)]
fn digit(c: u8) -> u64 {
    let lower = c | 0x20;
    if c >= b'0' && c <= b'9' { (c - b'0') as u64 } else if lower >= b'a' && lower <= b'f' { (lower - b'a') as u64 + 10 } else { 16 }
}
/// any character a literal could contain (ASCII; a plus sign is left unspecified)
fn any_char() -> u8 {
    let c = any_u8();
    assume(c < 128 && c != b'+');
    c
}
fn text(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }

/// -?0x[0-9a-fA-F]+ as a number, None if it is none or does not fit in 64 bits
#[inline(never)]
fn spec_hex(digits: &[u8], neg: bool) -> Option<u64> {
    let (mut v, mut ok, mut i) = (0u64, digits.len() > 0, 0);
    while i < digits.len() {
        let d = digits[i];
        let x = digit(d);
        ok = ok & (x < 16) & (v >> 60 == 0);
        v = v << 4 | x & 15;
        i += 1;
    }
    if !ok { None } else if neg { Some(0u64.wrapping_sub(v)) } else { Some(v) }
}
#[inline(never)]
fn decimal(c: u8) -> u64 { (c as u32).wrapping_sub(48) as u64 }
/// -?[0-9]+ for up to 18 digits
#[inline(never)]
fn spec_dec(digits: &[u8], neg: bool) -> Option<u64> {
    let (mut v, mut w, mut ok, mut i) = (0u64, 0u64, digits.len() > 0, 0);
    while i < digits.len() {
        let d = digits[i];
        let x = decimal(d);
        ok = ok & (x < 10);
        v = v.wrapping_mul(10).wrapping_add(x);
        w = w.wrapping_mul(10).wrapping_sub(x);
        i += 1;
    }
    if !ok { None } else if neg { Some(w) } else { Some(v) }
}
fn same(a: Option<u64>, b: Option<u64>, name: &'static str) {
    prove(a.is_some() == b.is_some(), name);
    if let (Some(a), Some(b)) = (a, b) { prove(a == b, name); }
}
fn hex_of(n: usize, neg: bool) {
    let mut b = [0u8; 24];
    let mut k = 0;
    if neg { b[0] = b'-'; k = 1; }
    b[k] = b'0';
    b[k + 1] = b'x';
    let mut i = 0;
    while i < n { b[k + 2 + i] = any_char(); i += 1; }
    let want = spec_hex(&b[k + 2..k + 2 + n], neg);
    cover(want.is_some(), "a number");
    cover(want.is_none(), "no number");
    same(parse_literal(text(&b[..k + 2 + n])), want, "a hexadecimal literal is the number it denotes; anything else is rejected");
}
/// hexadecimal literals with up to 18 arbitrary digits
fn hex() {
    let n = split(any_u64() % 19, 19) as usize;
    hex_of(n, any_bool());
    stop()
}
/// which texts of up to 15 characters are decimal literals
fn dec() {
    let n = split(any_u64() & 15, 16) as usize;
    let mut b = [0u8; 20];
    b[0] = b'-';
    let mut i = 0;
    while i < n { b[1 + i] = any_char(); i += 1; }
    // hexadecimal literals and a second sign are the business of hex() and any()
    assume(!(n >= 2 && b[1] == b'0' && b[2] == b'x') && !(n >= 1 && b[1] == b'-'));
    let neg = any_bool();
    let want = spec_dec(&b[1..1 + n], neg).is_some();
    cover(want, "a number");
    cover(!want, "no number");
    let got = parse_literal(text(if neg { &b[..1 + n] } else { &b[1..1 + n] }));
    prove(got.is_some() == want, "a decimal literal is a sign and digits; anything else is rejected");
    stop()
}
/// the value of a decimal literal of up to 18 digits
fn dec_value() {
    let n = 1 + split(any_u64() % 15, 15) as usize;
    let mut b = [0u8; 20];
    b[0] = b'-';
    let mut i = 0;
    while i < n { let c = any_u8(); assume(c >= b'0' && c <= b'9'); b[1 + i] = c; i += 1; }
    let neg = split(any_u64() & 1, 2) == 1;
    let want = spec_dec(&b[1..1 + n], neg);
    let got = parse_literal(text(if neg { &b[..1 + n] } else { &b[1..1 + n] }));
    same(got, want, "a decimal literal is the number it denotes");
    stop()
}
/// long decimal literals, around the ends of the range in particular
fn range() {
    // leading digits and their value
    let (head, h) = match split(any_u64() & 7, 8) {
        0 => ("92233720368547758", 92233720368547758u64),
        1 => ("000092233720368547758", 92233720368547758),
        2 => ("9999999999999999", 9999999999999999),
        3 => ("12345678901234567", 12345678901234567),
        4 => ("92233720368547759", 92233720368547759),
        5 => ("922337203685477580", 922337203685477580),
        6 => ("99999999999999999999", 0),
        _ => ("0000000000000000000", 0),
    };
    let neg = split(any_u64() & 1, 2) == 1;
    let (a, z) = (any_u8(), any_u8());
    assume(a < 10 && z < 10);
    let mut s = String::from(if neg { "-" } else { "" });
    s.push_str(head);
    s.push((b'0' + a) as char);
    s.push((b'0' + z) as char);
    let low = a as u64 * 10 + z as u64;
    // 2^63 = 9223372036854775808
    let fits = head.len() < 20 && (h < 92233720368547758 || h == 92233720368547758 && low <= 7 + neg as u64) || head.len() == 21 && low <= 7 + neg as u64;
    let v = h.wrapping_mul(100).wrapping_add(low);
    let want = if !fits { None } else if neg { Some(0u64.wrapping_sub(v)) } else { Some(v) };
    cover(want.is_some(), "in range");
    cover(want.is_none(), "out of range");
    same(parse_literal(&s), want, "a decimal literal in range is its number; out of range it is rejected");
    stop()
}
/// any five characters
fn any() {
    let n = split(any_u64() % 6, 6) as usize;
    let mut b = [0u8; 8];
    let mut i = 0;
    while i < n { b[i] = any_char(); i += 1; }
    let t = &b[..n];
    let neg = n > 0 && t[0] == b'-';
    let u = if neg { &t[1..] } else { t };
    let want = if u.len() >= 2 && u[0] == b'0' && u[1] == b'x' { spec_hex(&u[2..], neg) } else { spec_dec(u, neg) };
    same(parse_literal(text(t)), want, "a literal is the number it denotes; anything else is rejected");
    stop()
}
/// byte strings of a .yo listing
fn bytes() {
    let n = split(any_u64() % 22, 22) as usize;
    let mut b = [0u8; 24];
    let mut i = 0;
    while i < n { b[i] = any_char(); i += 1; }
    let mut ok = n & 1 == 0;
    i = 0;
    while i < n { let c = b[i]; ok &= digit(c) < 16; i += 1; }
    let r = decode_hex(text(&b[..n]));
    prove(r.is_ok() == ok, "a byte string is pairs of hexadecimal digits; anything else is rejected");
    cover(ok, "bytes");
    if let Ok(v) = r {
        prove(v.len() == n / 2, "one byte per pair of digits");
        i = 0;
        while i < n / 2 {
            let (h, l) = (b[2 * i], b[2 * i + 1]);
            prove(v[i] as u64 == digit(h) << 4 | digit(l), "every byte is its two digits");
            i += 1;
        }
    }
    stop()
}
/// words in memory
fn words() {
    let mut m = Box::new([0u8; MEMZ]);
    any_mem(&mut m[..]);
    let before = m.clone();
    let a = any_u64();
    assume(a < MEM);
    let n = if a + 8 > MEM { MEM - a } else { 8 };
    let v = get_u64(&m[a as usize..]);
    let i = any_u64();
    assume(i < 8);
    prove((v >> i * 8) as u8 == if i < n { m[(a + i & MEM - 1) as usize] } else { 0 }, "a word is read in little-endian order");
    let x = any_u64();
    put_u64(&mut m[a as usize..], x);
    let k = any_u64();
    assume(k < MEM);
    let d = k.wrapping_sub(a);
    prove(m[k as usize] == if d < 8 { (x >> d * 8) as u8 } else { before[k as usize] }, "a word is written in little-endian order, and nothing else");
    stop()
}
pub static HARNESSES: &[(&str, fn())] = &[("hex", hex), ("dec", dec), ("dec_value", dec_value), ("range", range), ("any", any), ("bytes", bytes), ("words", words)];
