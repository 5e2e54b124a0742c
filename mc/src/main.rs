mod core;
mod props;
mod refm;
mod refspec;

use crate::core::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub const CONFIG: &str = if cfg!(target_feature = "avx") { "avx" } else { "scalar" };

fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| ".".to_string())
}

fn new_ctx(prop: &str, thorough: bool, replay: Option<(String, u64)>, shared: &'static Shared) -> Ctx {
    Ctx {
        prop: prop.to_string(),
        thorough,
        replay,
        shared,
        t0: Instant::now(),
        violations: Mutex::new(vec![]),
        stats: Mutex::new(vec![]),
        samples: Mutex::new(vec![]),
        extra: Mutex::new(BTreeMap::new()),
        assumptions: Mutex::new(vec![]),
        outcomes: shared_words((OUTCOME_BITS / 64) as usize),
        nscopes: AtomicUsize::new(0),
        replay_hit: AtomicBool::new(false),
    }
}

fn write_fd(fd: i32, s: &str) {
    unsafe {
        libc::write(fd, s.as_ptr() as *const libc::c_void, s.len());
    }
}

fn replay_file(prop: &str, thorough: bool, scope: &str, index: u64, msg: &str) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}.txt", dir, prop, CONFIG);
    let _ = std::fs::write(
        &p,
        format!(
            "property={}\ntier={}\nconfig={}\nscope={}\nindex={}\nwhat={}\n# re-execute: bash check.sh replay {}\n",
            prop,
            if thorough { "thorough" } else { "quick" },
            CONFIG,
            scope,
            index,
            msg.replace('\n', " "),
            p
        ),
    );
    p
}

fn evidence(ctx: &Ctx, merge: Option<&str>) {
    let stats = ctx.stats.lock().unwrap();
    let (mut st, mut tr, mut va, mut space, mut cases) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut scopes = vec![];
    for s in stats.iter() {
        st += s.states;
        tr += s.transitions;
        va += s.validated;
        space += s.space;
        cases += s.cases;
        scopes.push(format!(
            "{{\"scope\":\"{}\",\"config\":\"{}\",\"space\":{},\"cases\":{},\"states\":{},\"transitions\":{},\"validated\":{},\"bound\":\"{}\",\"wall_s\":{:.2}}}",
            esc(&s.name),
            CONFIG,
            s.space,
            s.cases,
            s.states,
            s.transitions,
            s.validated,
            esc(&s.note),
            s.wall
        ));
    }
    let mut distinct: u64 = ctx.outcomes.iter().map(|w| w.load(Relaxed).count_ones() as u64).sum();
    let mut nviol = ctx.violations.lock().unwrap().len() as u64;
    let mut exhaustive = space == cases;
    let mut samples: Vec<String> = ctx.samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
    samples.truncate(40);
    let mut wall = ctx.t0.elapsed().as_secs_f64();
    if let Some(p) = merge {
        // counts of the other build configuration: one summary line, then scope objects
        if let Ok(t) = std::fs::read_to_string(p) {
            let mut l = t.lines();
            let v: Vec<f64> = l.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if v.len() == 7 {
                st += v[0] as u64;
                tr += v[1] as u64;
                va += v[2] as u64;
                distinct = distinct.max(v[3] as u64);
                nviol += v[4] as u64;
                exhaustive &= v[5] == 1.0;
                wall += v[6];
            }
            scopes.extend(l.map(|x| x.to_string()));
        }
    }
    if let Ok(p) = std::env::var("MC_PARTIAL") {
        let mut t = format!("{} {} {} {} {} {} {}\n", st, tr, va, distinct, nviol, exhaustive as u8, wall);
        for s in scopes {
            t.push_str(&s);
            t.push('\n');
        }
        let _ = std::fs::write(p, t);
        return;
    }
    if samples.is_empty() {
        samples.push("\"none\"".into());
    }
    let extra: Vec<String> = ctx.extra.lock().unwrap().iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let assumptions: Vec<String> = ctx.assumptions.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let j = format!(
        "{{\n\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\n\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"distinct_outcomes_lower_bound\":{},\"exhaustive\":{},{}\n\"rule\":\"states = distinct bounded cases enumerated; transitions = implementation results compared with the oracle; traces validated = cases inside the precondition whose whole trace agreed with the reference model\",\n\"scopes\":[\n{}],\n\"samples\":[\n{}]}},\n\"assumptions\":[{}],\n\"wall_s\":{:.3},\"violations\":{}\n}}\n",
        ctx.prop,
        if ctx.thorough { "thorough" } else { "quick" },
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        st,
        tr,
        va,
        distinct,
        exhaustive,
        extra.iter().map(|e| format!("{},", e)).collect::<String>(),
        scopes.join(",\n"),
        samples.join(",\n"),
        assumptions.join(","),
        wall,
        nviol
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}.json", dir, ctx.prop);
    let tmp = format!("{}.tmp", p);
    if std::fs::write(&tmp, j).and_then(|_| std::fs::rename(&tmp, &p)).is_err() {
        eprintln!("cannot write {}", p);
        std::process::exit(2);
    }
}

/// Runs in the forked child; returns the exit code.
fn run_child(prop: &str, thorough: bool, replay: Option<(String, u64)>, shared: &'static Shared) -> i32 {
    let out = unsafe { libc::dup(1) };
    unsafe {
        // the code under test prints notices; keep stdout for verdicts
        let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        libc::dup2(null, 1);
    }
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info).replace('\n', " ");
        if std::env::var("MC_DEBUG").is_ok() {
            eprintln!("{}", m);
        }
        PANIC_MSG.with(|p| p.set(Some(m)));
    }));
    let ctx: &'static Ctx = Box::leak(Box::new(new_ctx(prop, thorough, replay, shared)));
    // C22 forks from single-threaded processes only; its forks carry their own alarms
    let threaded = prop != "C22";
    // watchdog: a case that does not come back is a violation (hang)
    let limit: u64 = 180_000;
    if threaded {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let now = ctx.t0.elapsed().as_millis() as u64;
        for s in ctx.shared.slots.iter() {
            if s.busy.load(Acquire) == 1 && now > s.since_ms.load(Relaxed) + limit {
                let sid = s.scope.load(Relaxed) as usize;
                let scope = scope_name(ctx.shared, sid);
                let i = s.index.load(Relaxed);
                let p = replay_file(&ctx.prop, ctx.thorough, &scope, i, "does not return");
                let idx = i;
                ctx.violations.lock().unwrap().push(Violation { scope: scope.clone(), index: idx, msg: "does not return".into() });
                evidence(ctx, None);
                write_fd(out, &format!("{}[{}]: no result after {} s\nVIOLATION property={} replay={}\n", scope, idx, limit / 1000, ctx.prop, p));
                unsafe { libc::_exit(1) };
            }
        }
    });
    }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::dispatch(prop, ctx))) {
        Ok(true) => {}
        Ok(false) => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
        Err(_) => {
            // the crate panicked while its tables or reference inputs were being prepared
            let m = PANIC_MSG.with(|p| p.take()).unwrap_or_default();
            ctx.replay_hit.store(true, SeqCst);
            ctx.violations.lock().unwrap().push(Violation { scope: "prepare".into(), index: 0, msg: format!("panicked: {}", m) });
        }
    }
    if ctx.replay.is_some() && !ctx.replay_hit.load(SeqCst) {
        eprintln!("the replay scope does not exist in this tier");
        return 2;
    }
    if ctx.replay.is_none() {
        evidence(ctx, std::env::var("MC_MERGE").ok().as_deref());
    }
    let stats = ctx.stats.lock().unwrap();
    for s in stats.iter() {
        write_fd(
            out,
            &format!(
                "{} {} [{}]: space={} states={} transitions={} validated={} {:.1}s -- {}\n",
                prop, s.name, CONFIG, s.space, s.states, s.transitions, s.validated, s.wall, s.note
            ),
        );
    }
    if ctx.replay.is_some() {
        for s in ctx.samples.lock().unwrap().iter() {
            write_fd(out, &format!("case: {}\n", s));
        }
    }
    let v = ctx.violations.lock().unwrap();
    for x in v.iter() {
        write_fd(out, &format!("{} {}[{}]: {}\n", prop, x.scope, x.index, x.msg));
    }
    if let Some(x) = v.first() {
        let p = replay_file(prop, thorough, &x.scope, x.index, &x.msg);
        write_fd(out, &format!("VIOLATION property={} replay={}\n", prop, p));
        return 1;
    }
    0
}

fn scope_name(sh: &Shared, sid: usize) -> String {
    let b = &sh.names[sid % 256];
    let l = b.iter().position(|c| *c == 0).unwrap_or(63);
    String::from_utf8_lossy(&b[..l]).to_string()
}

fn supervised(prop: &str, thorough: bool, replay: Option<(String, u64)>) -> (i32, Option<i32>, &'static Shared) {
    let shared: &'static Shared = unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &*(p as *const Shared)
    };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        let rc = run_child(prop, thorough, replay, shared);
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(rc) };
    }
    let mut st = 0;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    if libc::WIFEXITED(st) {
        (libc::WEXITSTATUS(st), None, shared)
    } else {
        (-1, Some(libc::WTERMSIG(st)), shared)
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    if args.len() == 3 && args[1] == "run" {
        let prop = &args[2];
        let (rc, sig, sh) = supervised(prop, thorough, None);
        match sig {
            None => std::process::exit(rc),
            Some(s) if s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS || s == libc::SIGFPE || s == libc::SIGILL => {
                // the code under test brought the process down: confirm on the cases in flight
                for slot in sh.slots.iter() {
                    if slot.busy.load(SeqCst) != 1 {
                        continue;
                    }
                    let scope = scope_name(sh, slot.scope.load(SeqCst) as usize);
                    let i = slot.index.load(SeqCst);
                    let (rc, sig2, _) = supervised(prop, thorough, Some((scope.clone(), i)));
                    if sig2.is_some() || rc == 1 {
                        let p = replay_file(prop, thorough, &scope, i, &format!("killed by signal {}", s));
                        let ev = format!(
                            "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":1,\"level\":\"model_checking\",\"coverage\":{{\"states\":1,\"transitions\":1,\"traces_validated_against_impl\":0,\"samples\":[\"{}[{}] killed by signal {}\"]}},\"wall_s\":0.0,\"violations\":1}}\n",
                            prop, if thorough { "thorough" } else { "quick" }, scope, i, s);
                        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
                        let _ = std::fs::write(format!("{}/evidence/{}.json", verif_dir(), prop), ev);
                        println!("{}[{}]: the call kills the process (signal {})", scope, i, s);
                        println!("VIOLATION property={} replay={}", prop, p);
                        std::process::exit(1);
                    }
                }
                eprintln!("exploration died with signal {} and no case reproduces it", s);
                std::process::exit(2);
            }
            Some(s) => {
                eprintln!("exploration ended by signal {}", s);
                std::process::exit(2);
            }
        }
    }
    if args.len() == 3 && args[1] == "replay" {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
        let (rc, sig, _) = supervised(&get("property"), get("tier") == "thorough", Some((get("scope"), get("index").parse().unwrap())));
        if let Some(s) = sig {
            println!("killed by signal {}", s);
            std::process::exit(1);
        }
        std::process::exit(rc);
    }
    if args.len() == 2 && args[1] == "dump-tables" {
        print!("{}", props::tables::dump());
        return;
    }
    eprintln!("usage: mc run <property> | mc replay <file> | mc dump-tables");
    std::process::exit(2);
}
