//! Native replay: runs a harness on recorded inputs against the real crate.
//! stdin: one case per line  "entry|p0,p1|v0,v1,..."; stdout: one line per case
//!   OK tag:val,...   FAIL id tag:val,...   PANIC message   ASSUME   INPUTS
use std::cell::RefCell;
use std::io::{BufRead, Write};
include!(concat!(env!("OUT_DIR"), "/entries.rs"));

#[derive(Default)]
struct Run { inputs: Vec<u64>, pos: usize, params: Vec<u64>, trace: Vec<(u32, u64)>, panic: String }
thread_local! { static RUN: RefCell<Run> = RefCell::new(Run::default()); }
struct Ctl(&'static str, u32);

fn next() -> u64 {
    let v = RUN.with(|r| { let mut r = r.borrow_mut(); r.pos += 1; let p = r.pos - 1; r.inputs.get(p).cloned() });
    // inputs beyond the recorded ones are unconstrained: zero, as in the solver's model
    v.unwrap_or(0)
}
#[no_mangle] pub extern "C-unwind" fn vs_u8() -> u8 { next() as u8 }
#[no_mangle] pub extern "C-unwind" fn vs_u16() -> u16 { next() as u16 }
#[no_mangle] pub extern "C-unwind" fn vs_u32() -> u32 { next() as u32 }
#[no_mangle] pub extern "C-unwind" fn vs_u64() -> u64 { next() }
#[no_mangle] pub extern "C-unwind" fn vs_assume(b: bool) { if !b { std::panic::panic_any(Ctl("ASSUME", 0)) } }
#[no_mangle] pub extern "C-unwind" fn vs_check(id: u32, b: bool) { if !b { std::panic::panic_any(Ctl("FAIL", id)) } }
#[no_mangle] pub extern "C-unwind" fn vs_reach(_id: u32) {}
#[no_mangle] pub extern "C-unwind" fn vs_conc(x: u64) -> u64 { x }
#[no_mangle] pub extern "C-unwind" fn vs_obs(tag: u32, v: u64) { RUN.with(|r| r.borrow_mut().trace.push((tag, v))) }
#[no_mangle] pub extern "C-unwind" fn vs_obs_bytes(tag: u32, p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    RUN.with(|r| { let mut r = r.borrow_mut(); r.trace.push((tag, n as u64)); for b in s { r.trace.push((tag, *b as u64)); } })
}
#[no_mangle] pub extern "C-unwind" fn vs_param(k: u32) -> u64 { RUN.with(|r| r.borrow().params.get(k as usize).cloned().unwrap_or(0)) }
#[no_mangle] pub extern "C-unwind" fn vs_stop() -> ! { std::panic::panic_any(Ctl("OK", 0)) }
#[no_mangle] pub extern "C-unwind" fn vs_print(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    eprintln!("[vs_print] {}", String::from_utf8_lossy(s));
}
#[no_mangle] pub extern "C-unwind" fn vs_dump(v: u64) { eprintln!("[vs_dump] {:#x}", v); }

fn nums(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse::<u128>().unwrap() as u64).collect() }

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { return };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        RUN.with(|r| if let Ok(mut r) = r.try_borrow_mut() { if r.panic.is_empty() { r.panic = format!("{} at {}", m, l); } });
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.trim().split('|').collect();
        if f.len() < 3 { continue; }
        let e = match ENTRIES.iter().find(|e| e.0 == f[0]) { Some(e) => e.1, None => { println!("NOENTRY {}", f[0]); continue; } };
        RUN.with(|r| *r.borrow_mut() = Run { inputs: nums(f[2]), params: nums(f[1]), ..Run::default() });
        let res = std::panic::catch_unwind(|| e());
        let (tr, pm) = RUN.with(|r| { let r = r.borrow(); (r.trace.iter().map(|(t, v)| format!("{}:{}", t, v)).collect::<Vec<_>>().join(","), r.panic.replace('\n', " ")) });
        match res {
            Ok(()) => println!("OK {}", tr),
            Err(p) => match p.downcast_ref::<Ctl>() {
                Some(Ctl("OK", _)) => println!("OK {}", tr),
                Some(Ctl("FAIL", id)) => println!("FAIL {} {}", id, tr),
                Some(Ctl(k, _)) => println!("{}", k),
                None => println!("PANIC {}", pm),
            },
        }
        std::io::stdout().flush().unwrap();
    }
}
