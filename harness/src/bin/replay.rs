//! Runs one entry point natively on recorded inputs, against the real crate.
//! Each line of stdin: entry TAB hex(template) TAB hex(symbolic bytes).
//! Each line of stdout: the verdict TAB hex of what the path observed.

use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic;

#[derive(Default)]
struct State {
    template: Vec<u8>,
    bytes: Vec<u8>,
    at: usize,
    out: Vec<u8>,
    covers: Vec<u32>,
}

thread_local!(static STATE: RefCell<State> = RefCell::new(State::default()));

/// How a run ended other than by returning
enum End {
    Failed(String),
    Excluded,
    Short,
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        let b = STATE.with(|s| {
            let mut s = s.borrow_mut();
            s.at += 1;
            let at = s.at - 1;
            s.bytes.get(at).copied()
        });
        match b {
            Some(b) => *p.add(i) = b,
            None => panic::resume_unwind(Box::new(End::Short)),
        }
    }
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        panic::resume_unwind(Box::new(End::Excluded))
    }
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_fail(p: *const u8, n: usize) -> ! {
    let msg = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
    panic::resume_unwind(Box::new(End::Failed(msg)))
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_cover(c: u32) {
    STATE.with(|s| s.borrow_mut().covers.push(c))
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_concretize(v: u64) -> u64 {
    v
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_template(p: *mut u8, cap: usize) -> usize {
    STATE.with(|s| {
        let s = s.borrow();
        std::ptr::copy_nonoverlapping(s.template.as_ptr(), p, s.template.len().min(cap));
        s.template.len()
    })
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sym_out(p: *const u8, n: usize) {
    STATE.with(|s| s.borrow_mut().out.extend_from_slice(std::slice::from_raw_parts(p, n)))
}

macro_rules! entries {
    ($($m:ident: $($f:ident)*;)*) => {
        fn entry(name: &str) -> extern "C-unwind" fn() {
            match name {
                $($(stringify!($f) => harness::$m::$f,)*)*
                _ => panic!("unknown entry {name}"),
            }
        }
    };
}

entries! {
    parsing: p_c01 p_c02 p_c03 p_c04 p_c05 p_c06 p_c07 p_c08 p_c09 p_c10 p_c11 p_c12 p_c13 p_c14 p_c15_parsed p_c17 p_c18 p_c19;
    raise: p_c22 p_c11_built p_c12_built p_c23;
    built: p_c14_built p_c14_document p_c15 p_c15_parts p_c16 p_c16_valid p_c16_into p_c06_built p_c10_built p_c20 p_c21;
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let run = entry(f[0]);
        STATE.with(|s| *s.borrow_mut() = State { template: unhex(f[1]), bytes: unhex(f[2]), ..Default::default() });
        let verdict = match panic::catch_unwind(|| run()) {
            Ok(()) => "held".to_string(),
            Err(e) => match e.downcast::<End>() {
                Ok(e) => match *e {
                    End::Failed(msg) => format!("assert: {msg}"),
                    End::Excluded => "excluded".to_string(),
                    End::Short => "short".to_string(),
                },
                Err(e) => {
                    let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    format!("panic: {}", msg.unwrap_or_default())
                }
            },
        };
        let (out, covers) = STATE.with(|s| (hex(&s.borrow().out), s.borrow().covers.clone()));
        let covers: Vec<String> = covers.iter().map(|c| c.to_string()).collect();
        let verdict: String = verdict.chars().map(|c| if c.is_control() { ' ' } else { c }).collect();
        writeln!(stdout.lock(), "{verdict}\t{out}\t{}", covers.join(",")).unwrap();
        stdout.lock().flush().unwrap()
    }
}
