//! Native replay: runs one harness entry on concrete input values (from a
//! counterexample or a sampled path) against the real, natively compiled crate.
//!   vreplay ENTRY ARG W:V,W:V,...        run one
//!   vreplay --batch FILE                 lines "ENTRY ARG DIGEST INPUTS"
use std::cell::RefCell;

#[derive(Default)]
struct St {
    inputs: Vec<(u8, u64)>,
    pos: usize,
    digest: u64,
    verbose: bool,
}
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));

struct Stop(String);

fn input(w: u8) -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        match s.inputs.get(p) {
            Some((x, v)) => {
                assert!(*x == w, "input width mismatch at {p}");
                *v
            }
            None => 0,
        }
    })
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_u8() -> u8 {
    input(8) as u8
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_u16() -> u16 {
    input(16) as u16
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_u32() -> u32 {
    input(32) as u32
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_u64() -> u64 {
    input(64)
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        std::panic::panic_any(Stop("assumption failed".into()));
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_fail(code: u32) -> ! {
    std::panic::panic_any(Stop(format!("fail:{code} {}", vcore::fail_name(code))));
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_cover(_: u32) {}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_observe(v: u64) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        if s.verbose {
            println!("observe {v:#x}");
        }
        let mut d = (s.digest ^ v).wrapping_mul(0x0000_0100_0000_01b3);
        d ^= d >> 29;
        s.digest = d;
    })
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_select8(c: bool, a: u8, b: u8) -> u8 {
    if c { a } else { b }
}

fn parse_inputs(s: &str) -> Vec<(u8, u64)> {
    s.split(',')
        .filter(|x| !x.is_empty() && *x != "-")
        .map(|x| {
            let (w, v) = x.split_once(':').unwrap();
            (w.parse().unwrap(), v.parse().unwrap())
        })
        .collect()
}

fn run(name: &str, arg: u64, inputs: Vec<(u8, u64)>, verbose: bool) -> Result<u64, String> {
    let f = vcore::ENTRIES.iter().find(|e| e.0 == name).unwrap_or_else(|| panic!("no entry {name}")).1;
    ST.with(|s| *s.borrow_mut() = St { inputs, pos: 0, digest: 0xcbf2_9ce4_8422_2325, verbose });
    match std::panic::catch_unwind(|| f(arg)) {
        Ok(()) => Ok(ST.with(|s| s.borrow().digest)),
        Err(e) => Err(match e.downcast_ref::<Stop>() {
            Some(s) => s.0.clone(),
            None => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic: {m}")
            }
        }),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verbose = std::env::var("VERBOSE").is_ok();
    if !verbose {
        std::panic::set_hook(Box::new(|i| {
            if let Some(l) = i.location() {
                if i.payload().downcast_ref::<Stop>().is_none() {
                    println!("at {l}");
                }
            }
        }));
    }
    if a[1] == "--batch" {
        let (mut ok, mut bad) = (0, 0);
        for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
            let p: Vec<&str> = l.split(' ').collect();
            match run(p[0], p[1].parse().unwrap(), parse_inputs(p[3]), false) {
                Ok(d) if format!("{d:016x}") == p[2] => ok += 1,
                r => {
                    bad += 1;
                    println!("MISMATCH {l} -> {:x?}", r);
                }
            }
        }
        println!("BATCH ok={ok} bad={bad}");
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    let r = run(&a[1], a[2].parse().unwrap(), parse_inputs(a.get(3).map(|s| s.as_str()).unwrap_or("")), verbose);
    match r {
        Ok(d) => println!("OK {d:016x}"),
        Err(e) => {
            println!("FAILED {e}");
            std::process::exit(1);
        }
    }
}
