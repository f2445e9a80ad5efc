//! Symbolic inputs, built from the template of the job.
//!
//! A template is text in which 0x0E starts a hole, the next byte says what may stand there:
//! `A` any ASCII character, `U` any character, `W` a whitespace character (ASCII), `L` a lowercase letter,
//! `S` one of the characters LaTeX gives a meaning (or a letter), `O`/`C` an opening/closing bracket,
//! `?` nothing or any ASCII character, `0`-`9` and `a`-`z` the same character as in that hole, `<` any of the texts up to 0x10,
//! which 0x0F separates.

use crate::sym::*;

fn push_scalar(out: &mut Vec<u8>) {
    match choice(4) {
        0 => {
            let a = byte();
            assume(a < 0x80);
            out.push(a);
        }
        1 => {
            let (a, b) = (byte(), byte());
            assume((0xC2..=0xDF).contains(&a) & (0x80..=0xBF).contains(&b));
            out.extend([a, b]);
        }
        2 => {
            let (a, b, c) = (byte(), byte(), byte());
            assume((0xE0..=0xEF).contains(&a) & (0x80..=0xBF).contains(&b) & (0x80..=0xBF).contains(&c));
            assume((a != 0xE0) | (b >= 0xA0));
            assume((a != 0xED) | (b < 0xA0));
            out.extend([a, b, c]);
        }
        _ => {
            let (a, b, c, d) = (byte(), byte(), byte(), byte());
            assume((0xF0..=0xF4).contains(&a) & (0x80..=0xBF).contains(&b) & (0x80..=0xBF).contains(&c) & (0x80..=0xBF).contains(&d));
            assume((a != 0xF0) | (b >= 0x90));
            assume((a != 0xF4) | (b < 0x90));
            out.extend([a, b, c, d]);
        }
    }
}

fn one_of(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for x in set {
        ok |= b == *x;
    }
    assume(ok);
    b
}

pub fn hole(kind: u8, out: &mut Vec<u8>) {
    match kind {
        b'A' => {
            let b = byte();
            assume(b < 0x80);
            out.push(b)
        }
        b'?' => {
            if choice(2) == 1 {
                let b = byte();
                assume(b < 0x80);
                out.push(b)
            }
        }
        b'U' => push_scalar(out),
        b'W' => out.push(one_of(b" \t\r\n")),
        b'N' => out.push(one_of(b" \n")),
        b'L' => {
            let b = byte();
            assume(b.is_ascii_lowercase());
            out.push(b)
        }
        b'S' => out.push(one_of(b"{}[]()\\%$\n a,=")),
        b'B' => out.push(one_of(b"{}[]()")),
        b'O' => out.push(one_of(b"{[(")),
        b'C' => out.push(one_of(b"}])")),
        b'D' => out.push(one_of(b"$a\n\\")),
        _ => panic!("harness: unknown hole"),
    }
}

pub fn text_of(template: &[u8]) -> String {
    let mut out = Vec::with_capacity(template.len() + 16);
    let mut holes: Vec<(usize, usize)> = Vec::new();
    let mut i = 0;
    while i < template.len() {
        if template[i] == 0x0E {
            let k = template[i + 1];
            i += 2;
            if k.is_ascii_digit() || k.is_ascii_lowercase() {
                let (a, b) = holes[if k.is_ascii_digit() { k - b'0' } else { 10 + k - b'a' } as usize];
                for j in a..b {
                    let c = out[j];
                    out.push(c)
                }
                continue;
            }
            let a = out.len();
            if k == b'<' {
                let mut n = 1;
                let mut end = i;
                while template[end] != 0x10 {
                    n += (template[end] == 0x0F) as u8;
                    end += 1
                }
                let mut which = choice(n);
                for &c in &template[i..end] {
                    match c {
                        0x0F if which == 0 => break,
                        0x0F => which -= 1,
                        _ if which == 0 => out.push(c),
                        _ => {}
                    }
                }
                i = end + 1
            } else {
                hole(k, &mut out)
            }
            holes.push((a, out.len()));
        } else {
            out.push(template[i]);
            i += 1;
        }
    }
    // every hole yields well formed UTF-8
    unsafe { String::from_utf8_unchecked(out) }
}

pub fn text() -> String {
    text_of(&template())
}
