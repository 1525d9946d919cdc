//! Runs harnesses natively on recorded inputs. Reads lines `harness tok tok ...` from stdin, where a token is
//! `i<decimal>` or `b<hex f32 bits>`, and prints one result line per input line.
#[path = "../../harness/src/lv.rs"]
pub mod lv;
#[cfg(any(feature = "c14", feature = "c16", feature = "c17"))]
#[path = "../../harness/src/scan.rs"]
pub mod scan;
include!(env!("LV_TABLE"));

use std::cell::RefCell;
use std::io::Write;

struct Run {
    toks: Vec<(bool, i64)>,
    next: usize,
    failed: Vec<String>,
    expect: Option<String>,
    checks: usize,
    out: bool,
}

thread_local! {
    static RUN: RefCell<Run> = RefCell::new(Run { toks: vec![], next: 0, failed: vec![], expect: None, checks: 0, out: false });
    static MSG: RefCell<String> = RefCell::new(String::new());
}

struct Assume;

fn next() -> (bool, i64) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        let k = r.next;
        if k >= r.toks.len() {
            r.out = true;
            return (false, 0);
        }
        r.next += 1;
        r.toks[k]
    })
}
fn stop_if_out() {
    if RUN.with(|r| r.borrow().out) {
        std::panic::resume_unwind(Box::new(Assume));
    }
}
#[no_mangle]
pub extern "C-unwind" fn lv_i64(lo: i64, hi: i64) -> i64 {
    let v = next().1;
    stop_if_out();
    if v < lo || v > hi {
        std::panic::resume_unwind(Box::new(Assume));
    }
    v
}
#[no_mangle]
pub extern "C-unwind" fn lv_case(n: i64) -> i64 {
    lv_i64(0, n - 1)
}
#[no_mangle]
pub extern "C-unwind" fn lv_tier() -> i64 {
    lv_i64(0, 1)
}
fn float() -> f32 {
    let v = next();
    stop_if_out();
    f32::from_bits(v.1 as u32)
}
#[no_mangle]
pub extern "C-unwind" fn lv_fix(lo: i64, hi: i64, shift: u32) -> f32 {
    let v = float();
    let n = v as f64 * (1u64 << shift) as f64;
    if n != n.round() || n < lo as f64 || n > hi as f64 {
        std::panic::resume_unwind(Box::new(Assume));
    }
    v
}
#[no_mangle]
pub extern "C-unwind" fn lv_real(lo: f64, hi: f64) -> f32 {
    let v = float();
    if !(v as f64 >= lo && v as f64 <= hi) {
        std::panic::resume_unwind(Box::new(Assume));
    }
    v
}
#[no_mangle]
pub extern "C-unwind" fn lv_f32() -> f32 {
    float()
}
#[no_mangle]
pub extern "C-unwind" fn lv_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Assume));
    }
}
unsafe fn label(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
#[no_mangle]
pub extern "C-unwind" fn lv_check(c: bool, p: *const u8, n: usize) {
    RUN.with(|r| {
        let mut r = r.borrow_mut();
        r.checks += 1;
        if !c {
            r.failed.push(unsafe { label(p, n) });
        }
    });
}
#[no_mangle]
pub extern "C-unwind" fn lv_cover(_p: *const u8, _n: usize) {}
#[no_mangle]
pub extern "C-unwind" fn lv_expect_panic(p: *const u8, n: usize) {
    RUN.with(|r| r.borrow_mut().expect = Some(unsafe { label(p, n) }));
}
#[no_mangle]
pub extern "C-unwind" fn lv_native() -> i64 {
    1
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        MSG.with(|m| *m.borrow_mut() = format!("{}", i).replace('\n', " "));
    }));
    let stdin = std::io::stdin();
    let mut line = String::new();
    let mut n = 0;
    while {
        line.clear();
        stdin.read_line(&mut line).unwrap() > 0
    } {
        let mut it = line.split_whitespace();
        let name = match it.next() {
            Some(x) => x.to_string(),
            None => continue,
        };
        let toks: Vec<(bool, i64)> = it
            .map(|t| {
                if t.starts_with('b') {
                    (true, i64::from_str_radix(&t[1..], 16).unwrap())
                } else {
                    (false, t[1..].parse().unwrap())
                }
            })
            .collect();
        RUN.with(|r| {
            *r.borrow_mut() = Run { toks, next: 0, failed: vec![], expect: None, checks: 0, out: false }
        });
        let f = TABLE.iter().find(|x| x.0 == name).expect("harness").1;
        let res = std::panic::catch_unwind(|| f());
        let (failed, expect, checks) = RUN.with(|r| {
            let r = r.borrow();
            (r.failed.clone(), r.expect.clone(), r.checks)
        });
        // On a line of its own, whatever the harness printed.
        print!("\n@ {} ", n);
        n += 1;
        if !failed.is_empty() {
            println!("FAIL {}", failed.join("; "));
            std::io::stdout().flush().unwrap();
            continue;
        }
        match (res, expect) {
            (Ok(()), None) => println!("OK {}", checks),
            (Ok(()), Some(l)) => println!("FAIL no panic where one is required: {}", l),
            (Err(e), x) => {
                if e.is::<Assume>() {
                    println!("ASSUME")
                } else if x.is_some() {
                    println!("OK {}", checks)
                } else {
                    println!("FAIL unexpected panic: {}", MSG.with(|m| m.borrow().clone()))
                }
            }
        }
        std::io::stdout().flush().unwrap();
    }
}
