//! symx: bounded symbolic execution of LLVM IR with Z3 as the deciding procedure.
//!
//! symx MODULE.ll --out PREFIX [--workers N] [--time SECS] ENTRY...
//!
//! For every entry, PREFIX.ENTRY.wK files receive line oriented results which check.py merges.
mod exec;
mod expr;
mod ir;
mod lia;
mod mem;
mod solver;
mod z3;
use exec::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

struct Shared { next: AtomicU64, viol: AtomicU64, stop: AtomicU64, active: AtomicU64 }

struct Tally {
    ok: u64, infeasible: u64, fail: u64, panic: u64, hang: u64, unsup: u64, unknown: u64,
    covers: u64, samples: u64, maxsteps: u64, maxvars: u16, maxforks: u32,
    lines: Vec<String>, nviol: u64, nunsup: u64,
    /// where violations are announced as soon as they are found, and the entry they belong to
    early: Option<(String, String)>,
}
impl Tally {
    fn new() -> Self { Tally { ok: 0, infeasible: 0, fail: 0, panic: 0, hang: 0, unsup: 0, unknown: 0, covers: 0, samples: 0, maxsteps: 0, maxvars: 0, maxforks: 0, lines: vec![], nviol: 0, nunsup: 0, early: None } }
}

fn choices(st: &State) -> String {
    let mut s = String::new();
    for c in st.choices.iter() {
        if !s.is_empty() { s.push(' '); }
        match c { Choice::Var(v) => s.push_str(&st.model[*v as usize].to_string()), Choice::K(k) => s.push_str(&k.to_string()) }
    }
    s
}

fn announce(path: &str, line: &str) {
    if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(path) { let _ = f.write_all(line.as_bytes()); }
}

fn ended(e: &mut Eng, st: &State, end: &End, t: &mut Tally, rng: &mut u64, sample_every: u64) -> bool {
    t.maxsteps = t.maxsteps.max(st.steps);
    t.maxvars = t.maxvars.max(st.nvars);
    t.maxforks = t.maxforks.max(st.forks);
    let mut viol = |t: &mut Tally, kind: &str, msg: &str| { t.nviol += 1; if let Some((p, ent)) = &t.early { announce(p, &format!("{}\t{}\t{}\t{}\n", ent, kind, choices(st), msg.replace(['\n', '\t'], " "))); } if t.nviol <= 60 { t.lines.push(format!("violation\t{}\t{}\t{}", kind, choices(st), msg)); } };
    match end {
        End::Ok => {
            t.ok += 1;
            t.covers |= st.covers;
            *rng ^= *rng << 13; *rng ^= *rng >> 7; *rng ^= *rng << 17;
            if t.samples < 4 || (*rng % sample_every == 0 && t.samples < 40) {
                t.samples += 1;
                let model = st.model.clone();
                let obs: Vec<String> = st.obs.iter().map(|v| { let ex = e.te(v, 64); (e.x.eval(ex, &model) as u64).to_string() }).collect();
                t.lines.push(format!("sample\t{}\t{}\t{}", choices(st), obs.join(" "), st.covers));
            }
        },
        End::Yield => {},
        End::Infeasible => t.infeasible += 1,
        End::Fail(c) if *c >= 9000 => { t.unsup += 1; t.nunsup += 1; if t.nunsup <= 5 { t.lines.push(format!("unsupported\t{}\tbound {} exceeded", choices(st), c)); } },
        End::Fail(c) => { t.fail += 1; viol(t, "fail", &format!("{}", c)); return true; },
        End::Panic(m) => { t.panic += 1; viol(t, "panic", m); return true; },
        End::Hang(m) => { t.hang += 1; viol(t, "hang", m); return true; },
        End::Unsupported(m) => { t.unsup += 1; t.nunsup += 1; if t.nunsup <= 5 { t.lines.push(format!("unsupported\t{}\t{}", choices(st), m)); } },
        End::Unknown(m) => { t.unknown += 1; t.nunsup += 1; if t.nunsup <= 5 { t.lines.push(format!("unknown\t{}\t{}", choices(st), m)); } },
    }
    false
}

fn report(e: &Eng, t: &Tally, path: &str, incomplete: u64, wall: f64) {
    let mut f = std::fs::File::create(path).unwrap();
    let mut p = |s: String| { writeln!(f, "{}", s).unwrap(); };
    for (k, v) in [("ok", t.ok), ("infeasible", t.infeasible), ("fail", t.fail), ("panic", t.panic), ("hang", t.hang), ("unsupported", t.unsup), ("unknown", t.unknown), ("covers", t.covers), ("maxsteps", t.maxsteps), ("maxvars", t.maxvars as u64), ("maxforks", t.maxforks as u64), ("instrs", e.instrs), ("branches", e.branches), ("forks", e.forks), ("ranged", e.ranged), ("incomplete", incomplete), ("exprs", e.x.len() as u64)] {
        p(format!("n\t{}\t{}", k, v));
    }
    let s = &e.s.st;
    for (k, v) in s.pairs() { p(format!("s\t{}\t{}", k, v)); }
    p(format!("s\twall\t{}", wall));
    for l in &t.lines { p(l.replace('\n', " ")); }
    for (i, n) in e.m.fnames.iter().enumerate() { if e.executed[i] { p(format!("fn\t{}", n)); } }
    for x in &e.stubs_used { p(format!("stub\t{}", x)); }
    for x in &e.missing { p(format!("missing\t{}", x)); }
    p("end".into());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mut out, mut workers, mut time, mut entries, mut steps, mut sample) = (String::from("/tmp/symx"), 8usize, 600u64, vec![], 60_000_000u64, 50u64);
    let mut trace = false;
    let mut i = 2;
    while i < a.len() {
        match a[i].as_str() {
            "--out" => { i += 1; out = a[i].clone(); },
            "--workers" => { i += 1; workers = a[i].parse().unwrap(); },
            "--time" => { i += 1; time = a[i].parse().unwrap(); },
            "--steps" => { i += 1; steps = a[i].parse().unwrap(); },
            "--sample-every" => { i += 1; sample = a[i].parse().unwrap(); },
            "--trace" => trace = true,
            _ => entries.push(a[i].clone()),
        }
        i += 1;
    }
    let text = std::fs::read_to_string(&a[1]).expect("module");
    let t0 = Instant::now();
    let m = ir::parse_module(text);
    let mut e = Eng::new(m);
    e.step_limit = steps;
    eprintln!("symx: module loaded in {:.2}s, {} functions", t0.elapsed().as_secs_f64(), e.m.fnames.len());
    let sh = unsafe { let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0); if p as isize == -1 { panic!("mmap"); } &*(p as *const Shared) };
    let deadline = t0 + Duration::from_secs(time);
    for ent in &entries {
        // harnesses of known findings go on after violations, which are told apart by their code
        let most = if ent.len() > 5 && &ent[5..6] == "k" { 50 } else { 4 };
        let t1 = Instant::now();
        sh.next.store(0, SeqCst); sh.viol.store(0, SeqCst); sh.stop.store(0, SeqCst);
        e.executed.iter_mut().for_each(|x| *x = false);
        e.instrs = 0; e.branches = 0; e.forks = 0; e.ranged = 0; e.stubs_used.clear(); e.s.st = Default::default();
        let st = e.initial(ent);
        sh.active.store(1, SeqCst);
        sh.next.store(1, SeqCst);
        let mut stack = vec![st];
        let early = Some((format!("{}.early", out), ent.clone()));
        let mut tally = Tally::new();
        tally.early = early.clone();
        let mut id = 0u64;
        let mut rng = 0x9E3779B97F4A7C15u64;
        let mut incomplete = 0;
        let mut kids: Vec<i32> = vec![];
        let mut last = Instant::now();
        let mut sib: Vec<State> = vec![];
        while let Some(mut st) = stack.pop() {
            if sh.stop.load(SeqCst) != 0 || sh.viol.load(SeqCst) >= most || Instant::now() > deadline { sh.stop.store(1, SeqCst); incomplete += stack.len() as u64 + 1; break; }
            let end = e.run(&mut st, &mut sib, true);
            if trace && !matches!(end, End::Yield) { eprintln!("path {:?} steps {} choices {}", end, st.steps, choices(&st)); }
            stack.append(&mut sib);
            if let End::Yield = end { stack.push(st); } else if ended(&mut e, &st, &end, &mut tally, &mut rng, sample) { sh.viol.fetch_add(1, SeqCst); }
            // share work: a forked copy of this process takes half of the pending states
            if stack.len() >= 2 && last.elapsed().as_millis() >= 40 && sh.active.load(SeqCst) < workers as u64 {
                if sh.active.fetch_add(1, SeqCst) >= workers as u64 { sh.active.fetch_sub(1, SeqCst); continue; }
                let nid = sh.next.fetch_add(1, SeqCst);
                let pid = unsafe { fork() };
                if pid < 0 { eprintln!("symx: fork failed"); std::process::exit(73); }
                let mut mine = vec![];
                let mut theirs = vec![];
                for (i, s) in std::mem::take(&mut stack).into_iter().enumerate() { if i % 2 == 0 { theirs.push(s); } else { mine.push(s); } }
                last = Instant::now();
                if pid == 0 {
                    id = nid;
                    kids.clear();
                    stack = theirs;
                    tally = Tally::new();
                    tally.early = early.clone();
                    rng ^= (nid + 1).wrapping_mul(0x1234567);
                    incomplete = 0;
                    e.executed.iter_mut().for_each(|x| *x = false);
                    e.instrs = 0; e.branches = 0; e.forks = 0; e.ranged = 0; e.s.st = Default::default();
                } else { stack = mine; kids.push(pid); }
            }
        }
        sh.active.fetch_sub(1, SeqCst);
        report(&e, &tally, &format!("{}.{}.w{}", out, ent, id), incomplete, t1.elapsed().as_secs_f64());
        stack.clear();
        let mut bad = false;
        for p in kids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { eprintln!("symx: worker of {} ended with status {:#x}", ent, s); bad = true; } }
        if id != 0 { unsafe { _exit(if bad { 72 } else { 0 }) } }
        if bad { std::process::exit(72); }
        eprintln!("symx: {} done in {:.2}s", ent, t1.elapsed().as_secs_f64());
    }
}
