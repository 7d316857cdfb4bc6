//! vx: bounded symbolic execution of the LLVM IR that rustc emits for the harness and everything linked into it.
mod exec;
mod expr;
mod ll;
mod solver;
use exec::*;
use expr::*;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(f: *mut i32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn getpid() -> i32;
}

/// shared between all worker processes
#[repr(C)]
pub struct Shared { pub active: AtomicU64, pub stop: AtomicU64, pub paths: AtomicU64, pub started: AtomicU64, pub next: AtomicU64, pub errors: AtomicU64 }

pub fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() { match c { '"' => r.push_str("\\\""), '\\' => r.push_str("\\\\"), '\n' => r.push_str("\\n"), '\t' => r.push_str("\\t"), c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)), c => r.push(c) } }
    r.push('"'); r
}
fn hex_val(v: &[u64], w: u32) -> String {
    let n = ((w + 7) / 8) as usize; let mut s = String::new();
    for i in (0..n).rev() { s.push_str(&format!("{:02x}", (v.get(i / 8).cloned().unwrap_or(0) >> (i % 8 * 8)) as u8)); }
    s
}

#[derive(Default, Clone)]
struct EStat { paths: u64, infeasible: u64, steps: u64, max_steps: u64, forks: u64, samples: u64, panics: u64 }

struct Cfg { ir: String, out: String, jobs: u64, timeout: u64, rlimit: u32, max_steps: u64, max_paths: u64, samples: u64, seed: u32, verbose: bool, keep_going: bool, max_errors: u64, entries: Vec<String> }

fn args() -> Cfg {
    let mut c = Cfg { ir: String::new(), out: String::new(), jobs: 8, timeout: 600, rlimit: 20_000_000, max_steps: 400_000_000, max_paths: 2_000_000, samples: 2, seed: 0, verbose: false, keep_going: false, max_errors: 12, entries: vec![] };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--ir" => c.ir = v(), "--out" => c.out = v(), "--jobs" => c.jobs = v().parse().unwrap(), "--timeout" => c.timeout = v().parse().unwrap(), "--rlimit" => c.rlimit = v().parse().unwrap(),
            "--max-errors" => c.max_errors = v().parse().unwrap(), "--max-steps" => c.max_steps = v().parse().unwrap(), "--max-paths" => c.max_paths = v().parse().unwrap(), "--samples" => c.samples = v().parse().unwrap(), "--seed" => c.seed = v().parse().unwrap(),
            "--verbose" => c.verbose = true, "--keep-going" => c.keep_going = true, "--z3-version" => { println!("{}", solver::Solver::version()); std::process::exit(0) }
            _ => c.entries.push(a),
        }
    }
    c
}

fn emit(fd: i32, mut s: String) {
    s.push('\n');
    // length-prefixed so that long records survive concurrent writers: everything goes through one locked append file
    unsafe { let mut o = 0; while o < s.len() { let n = write(fd, s.as_ptr().add(o), s.len() - o); if n <= 0 { _exit(4) } o += n as usize; } }
}

fn inputs_json(x: &Exprs, st: &State) -> String {
    let v: Vec<String> = st.inputs.iter().map(|e| {
        let (i, w) = match x.node(*e) { Node::Sym(i) => (*i, x.syms[*i as usize].w), _ => panic!() };
        let z = vec![0u64; limbs(w)];
        let val = st.model.get(&i).cloned().unwrap_or_else(|| { // unconstrained: smallest value in range
            let lo = x.info[*e as usize].lo; let mut r = vec![lo as u64, (lo >> 64) as u64]; r.resize(limbs(w).max(1), 0); if w > 128 { z.clone() } else { r } });
        format!("[{},{},{}]", esc(&x.syms[i as usize].name), w, esc(&hex_val(&val, w)))
    }).collect();
    format!("[{}]", v.join(","))
}
fn observed_json(x: &Exprs, st: &State) -> String {
    let mut memo = HashMap::new();
    let v: Vec<String> = st.observed.iter().map(|(n, v, w)| {
        let val = match v { ll::Val::C(c) => vec![*c as u64, (*c >> 64) as u64], ll::Val::S(e) => x.eval(*e, &st.model, &mut memo), _ => vec![0] };
        format!("[{},{}]", esc(n), esc(&hex_val(&val, *w)))
    }).collect();
    format!("[{}]", v.join(","))
}

fn worker(cfg: &Cfg, en: &mut Engine, sh: &'static Shared, fd: i32, mut work: Vec<State>) {
    let t0 = std::time::Instant::now();
    let me = unsafe { getpid() };
    let mut es: BTreeMap<u32, EStat> = BTreeMap::new();
    let mut base = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64); // counters at the start of this process
    let snap = |en: &Engine| (en.s.queries, en.s.cached, en.s.nanos, en.asserts, en.assert_queries, en.forks, en.hash_uses, en.bigops, en.fmts);
    base = { let _ = base; snap(en) };
    en.funcs_used.clear();
    let mut fallbacks0 = en.s.fallbacks;
    let mut reached: BTreeMap<u32, std::collections::BTreeSet<String>> = BTreeMap::new();
    let mut seq = 0u64;
    while let Some(mut st) = work.pop() {
        if sh.stop.load(SeqCst) != 0 { break; }
        // hand out the oldest state when a slot is free
        while !work.is_empty() && sh.active.load(SeqCst) < cfg.jobs {
            if sh.active.fetch_add(1, SeqCst) >= cfg.jobs { sh.active.fetch_sub(1, SeqCst); break; }
            sh.started.fetch_add(1, SeqCst);
            let give = work.remove(0);
            let pid = unsafe { fork() };
            if pid == 0 {
                drop(work); drop(st);
                worker(cfg, en, sh, fd, vec![give]);
                unsafe { _exit(0) }
            } else if pid < 0 { sh.active.fetch_sub(1, SeqCst); sh.started.fetch_sub(1, SeqCst); work.insert(0, give); break; }
        }
        let steps0 = st.steps;
        let end = en.run(&mut st);
        let s = es.entry(st.entry).or_default();
        s.steps += st.steps - steps0.min(st.steps); s.max_steps = s.max_steps.max(st.steps);
        let name = &cfg.entries[st.entry as usize];
        let n = sh.paths.fetch_add(1, SeqCst) + 1;
        match end {
            End::Done => {
                s.paths += 1; s.forks += st.forks as u64; s.panics += st.panics as u64;
                let r = reached.entry(st.entry).or_default();
                let mut fresh = false;
                for l in &st.reached { if !r.contains(l) { r.insert(l.clone()); fresh = true; } }
                seq += 1;
                if cfg.samples > 0 && (s.samples < cfg.samples || (fresh && s.samples < 6 * cfg.samples)) {
                    s.samples += 1;
                    emit(fd, format!("S {} {{\"entry\":{},\"inputs\":{},\"observed\":{},\"reached\":[{}]}}", me, esc(name), inputs_json(&en.x, &st), observed_json(&en.x, &st), st.reached.iter().map(|l| esc(l)).collect::<Vec<_>>().join(",")));
                }
            }
            End::Infeasible => s.infeasible += 1,
            End::Violation(m) => {
                let bt = en.backtrace(&st);
                emit(fd, format!("V {} {{\"entry\":{},\"message\":{},\"backtrace\":{},\"inputs\":{},\"reached\":[{}]}}", me, esc(name), esc(&m), esc(&bt), inputs_json(&en.x, &st), st.reached.iter().map(|l| esc(l)).collect::<Vec<_>>().join(",")));
                if cfg.verbose { eprintln!("violation {} {}", name, m); for c in &st.pc { eprintln!("   pc {}", en.x.show(*c, 12)); } }
                if !cfg.keep_going { sh.stop.store(1, SeqCst); }
            }
            End::Panic(m) | End::Err(m) => {
                if sh.stop.load(SeqCst) == 0 {
                    emit(fd, format!("E {} {{\"entry\":{},\"message\":{},\"backtrace\":{},\"inputs\":{}}}", me, esc(name), esc(&m), esc(&en.backtrace(&st)), inputs_json(&en.x, &st)));
                    // other paths go on; too many undecided ones end the run
                    if sh.errors.fetch_add(1, SeqCst) >= cfg.max_errors || en.lim.deadline <= std::time::Instant::now() { sh.stop.store(2, SeqCst); }
                }
            }
        }
        work.append(&mut en.pending);
        if n > cfg.max_paths { if sh.stop.swap(2, SeqCst) == 0 { emit(fd, format!("E {} {{\"entry\":{},\"message\":\"path limit\",\"backtrace\":\"\",\"inputs\":[]}}", me, esc(name))); } break; }
    }
    let b = snap(en);
    let ent: Vec<String> = es.iter().map(|(k, s)| format!("{}:{{\"paths\":{},\"infeasible\":{},\"steps\":{},\"max_steps\":{},\"forks\":{},\"panics\":{}}}", esc(&cfg.entries[*k as usize]), s.paths, s.infeasible, s.steps, s.max_steps, s.forks, s.panics)).collect();
    let fu: Vec<String> = en.funcs_used.iter().map(|(f, n)| format!("{}:{}", esc(&demangle(&en.m.funcs[*f as usize].name)), n)).collect();
    let rc: Vec<String> = reached.iter().map(|(k, s)| format!("{}:[{}]", esc(&cfg.entries[*k as usize]), s.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","))).collect();
    if cfg.verbose { en.report_forks(); }
    let fb = en.s.fallbacks - fallbacks0; fallbacks0 = 0; let _ = fallbacks0;
    emit(fd, format!("D {} {{\"queries\":{},\"cached\":{},\"solver_ns\":{},\"max_query_ns\":{},\"asserts\":{},\"assert_queries\":{},\"forks\":{},\"hash_uses\":{},\"bigops\":{},\"fmts\":{},\"portfolio\":{},\"unfinished\":{},\"secs\":{:.3},\"entries\":{{{}}},\"functions\":{{{}}},\"reached\":{{{}}}}}", me,
        b.0 - base.0, b.1 - base.1, b.2 - base.2, en.s.max_ns, b.3 - base.3, b.4 - base.4, b.5 - base.5, b.6 - base.6, b.7 - base.7, b.8 - base.8, fb, work.len(), t0.elapsed().as_secs_f64(), ent.join(","), fu.join(","), rc.join(",")));
    sh.active.fetch_sub(1, SeqCst);
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn real() -> i32 {
    let cfg = args();
    let t0 = std::time::Instant::now();
    let mut x = Exprs::new();
    let m = ll::Module::load(&cfg.ir, &mut x);
    let parse = t0.elapsed().as_secs_f64();
    let nf = m.funcs.iter().filter(|f| f.defined).count();
    let deadline = t0 + std::time::Duration::from_secs(cfg.timeout);
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    let s = solver::Solver::new(cfg.rlimit, cfg.seed);
    let mut en = Engine::new(m, x, s, Limits { max_steps: cfg.max_steps, deadline, stop: &sh.stop });
    en.verbose = cfg.verbose;
    let mut work = vec![];
    for (i, e) in cfg.entries.iter().enumerate() {
        let Some(f) = en.m.funcs.iter().position(|f| f.name == *e && f.defined) else { eprintln!("vx: no function {}", e); return 3 };
        let mut st = en.initial(f as u32); st.entry = i as u32; work.push(st);
    }
    work.reverse();
    let mut fds = [0i32; 2];
    unsafe { if pipe(fds.as_mut_ptr()) != 0 { return 3; } }
    // records: every worker appends to its own file, the pipe only signals the end of all workers
    let dir = format!("{}.d", cfg.out);
    let _ = std::fs::remove_dir_all(&dir); std::fs::create_dir_all(&dir).expect("result dir");
    let log = format!("{}/log", dir);
    let f = std::fs::OpenOptions::new().create(true).append(true).open(&log).unwrap();
    let lfd = { use std::os::fd::IntoRawFd; f.into_raw_fd() };
    sh.active.store(1, SeqCst); sh.started.store(1, SeqCst);
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { close(fds[0]); }
        worker(&cfg, &mut en, sh, lfd, work);
        unsafe { _exit(0) }
    }
    unsafe { close(fds[1]); }
    let mut r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut b = vec![]; let _ = r.read_to_end(&mut b);
    let txt = std::fs::read_to_string(&log).unwrap();
    let done = txt.lines().filter(|l| l.starts_with("D ")).count() as u64;
    let strip = |k: &str| -> Vec<String> { txt.lines().filter(|l| l.starts_with(k)).map(|l| l.splitn(3, ' ').nth(2).unwrap().to_string()).collect() };
    let out = format!("{{\"parse_secs\":{:.3},\"wall_secs\":{:.3},\"z3\":{},\"ir_functions\":{},\"workers\":{},\"lost_workers\":{},\"stop\":{},\"violations\":[{}],\"errors\":[{}],\"samples\":[{}],\"workers_stats\":[{}]}}\n",
        parse, t0.elapsed().as_secs_f64(), esc(&solver::Solver::version()), nf, sh.started.load(SeqCst), sh.started.load(SeqCst) - done, sh.stop.load(SeqCst), strip("V ").join(","), strip("E ").join(","), strip("S ").join(","), strip("D ").join(","));
    let mut f = std::fs::File::create(&cfg.out).unwrap(); f.write_all(out.as_bytes()).unwrap();
    let _ = std::fs::remove_dir_all(&dir);
    let _ = Rc::new(0);
    0
}
