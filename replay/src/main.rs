//! Runs harness entries natively: the unmodified crates with their real dependencies,
//! unoptimised, fed the concrete bytes of a path found by the symbolic executor.
#[path = "../../harness/src/props/mod.rs"]
#[allow(dead_code)]
mod props;

use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Default)]
struct Ctx {
    input: Vec<u8>,
    pos: usize,
    outs: Vec<Vec<u8>>,
    panic: String,
}
thread_local!(static C: RefCell<Ctx> = RefCell::new(Ctx::default()));

/// print outputs as they come, for runs that never end
static LIVE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

enum End {
    Stop,
    Assumed,
    Exhausted,
    Fail(String),
}
fn end(e: End) -> ! {
    resume_unwind(Box::new(e))
}
unsafe fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 {
        &[]
    } else {
        std::slice::from_raw_parts(p, n)
    }
}

#[no_mangle]
unsafe extern "C-unwind" fn sym_bytes(p: *mut u8, n: usize) {
    let ok = C.with(|c| {
        let mut c = c.borrow_mut();
        if c.pos + n > c.input.len() {
            return false;
        }
        let pos = c.pos;
        for i in 0..n {
            *p.add(i) = c.input[pos + i];
        }
        c.pos += n;
        true
    });
    if !ok {
        end(End::Exhausted)
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_dom(p: *const u8, m: *const u64) {
    let b = *p;
    if *m.add((b >> 6) as usize) >> (b & 63) & 1 == 0 {
        end(End::Assumed)
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_assume(c: u32) {
    if c == 0 {
        end(End::Assumed)
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_assert(c: u32, m: *const u8, n: usize) {
    if c == 0 {
        end(End::Fail(String::from_utf8_lossy(sl(m, n)).into()))
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_fail(m: *const u8, n: usize) -> ! {
    end(End::Fail(String::from_utf8_lossy(sl(m, n)).into()))
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_out(p: *const u8, n: usize) {
    let v = sl(p, n).to_vec();
    if LIVE.load(std::sync::atomic::Ordering::Relaxed) {
        println!("OUT {}", String::from_utf8_lossy(&v).escape_debug());
    }
    C.with(|c| c.borrow_mut().outs.push(v))
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_cover(_k: u32) {}
#[no_mangle]
unsafe extern "C-unwind" fn sym_eq(a: *const u8, b: *const u8, n: usize) -> u32 {
    (sl(a, n) == sl(b, n)) as u32
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_same(a: *const u8, n: usize, b: *const u8, k: usize, m: *const u8, l: usize) {
    if sl(a, n) != sl(b, k) {
        sym_out(a, n);
        sym_out(b, k);
        sym_fail(m, l)
    }
}
#[no_mangle]
unsafe extern "C-unwind" fn sym_stop() -> ! {
    end(End::Stop)
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// (verdict, outputs)
fn run(entry: &str, args: &str, input: Vec<u8>) -> (String, Vec<Vec<u8>>) {
    let Some((_, f)) = props::TABLE.iter().find(|x| x.0 == entry) else {
        return (format!("no entry {entry}"), vec![]);
    };
    let mut a = args.split([',', ' ']).filter(|x| !x.is_empty()).map(|x| x.parse::<u64>().unwrap());
    let a: [u64; 4] = std::array::from_fn(|_| a.next().unwrap_or(0));
    C.with(|c| *c.borrow_mut() = Ctx { input, ..Ctx::default() });
    let r = catch_unwind(AssertUnwindSafe(|| f(a[0], a[1], a[2], a[3])));
    let outs = C.with(|c| std::mem::take(&mut c.borrow_mut().outs));
    let v = match r {
        Ok(()) => "ok".into(),
        Err(e) => match e.downcast::<End>() {
            Ok(e) => match *e {
                End::Stop => "ok".into(),
                End::Assumed => "assumed".into(),
                End::Exhausted => "exhausted".into(),
                End::Fail(s) => format!("fail {s}"),
            },
            Err(_) => format!("panic {}", C.with(|c| c.borrow().panic.clone())),
        },
    };
    (v, outs)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        C.with(|c| c.borrow_mut().panic = s);
    }));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // mitex-replay one ENTRY ARGS HEX
        "one" => {
            LIVE.store(true, std::sync::atomic::Ordering::Relaxed);
            let (v, _) = run(&a[2], &a[3], unhex(a[4].trim_matches('-')));
            println!("VERDICT {v}");
        }
        // mitex-replay conv m|t TEXT...
        "conv" => {
            for t in &a[3..] {
                let t = t.replace('@', "\n");
                let r = if a[2] == "m" { mitex::convert_math(&t, None) } else { mitex::convert_text(&t, None) };
                println!("{t:?} => {r:?}");
            }
        }
        // mitex-replay batch FILE: every line must end "ok" with the listed outputs
        "batch" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let (mut n, mut bad) = (0, 0);
            for l in t.lines() {
                let mut p = l.split('|');
                let (e, ar, i) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
                let want = p.next().unwrap_or("").trim();
                let (v, outs) = run(e, ar, unhex(i.trim_matches('-')));
                let got = outs.iter().map(|x| hex(x)).collect::<Vec<_>>().join(" ");
                n += 1;
                if v != "ok" || got != want {
                    bad += 1;
                    if bad < 20 {
                        println!("MISMATCH {v} {l} got {got}");
                    }
                }
            }
            println!("BATCH {n} {bad}");
        }
        _ => panic!("usage"),
    }
}
