//! The driver: seeded search with forked workers, confirmation, minimisation, replay, evidence.
use crate::drive::*;
use crate::gen::{Pool, CRIT, LIVE};
use crate::props::{Prop, PROPS};
use crate::rng::{hash2, hash_str, Rng};
use crate::rt;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const BLOCK: u64 = 64;

pub struct Args {
    pub prop: String,
    pub secs: f64,
    pub workers: usize,
    pub seed: u64,
    pub tier: String,
    pub from: Option<u64>,
    pub max: u64,
    pub root: PathBuf,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    pub verif_seed: u64,
    pub index: u64,
    pub run_seed: u64,
    pub pool_seed: u64,
    /// events executed and hash over all of them, for the exact comparison on replay
    pub events: u64,
    pub event_hash: u64,
    #[serde(default)]
    pub switches: Vec<String>,
    #[serde(default)]
    pub workload: Vec<String>,
    pub spec: Spec,
    #[serde(default)]
    pub original_spec: Option<Spec>,
}

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}
fn pool_seed(seed: u64, id: &str, block: u64) -> u64 {
    hash2(hash2(seed, hash_str(id)), 0xB10C ^ (block << 8))
}
fn run_seed(seed: u64, id: &str, index: u64) -> u64 {
    hash2(hash2(seed, hash_str(id)), 0x51ED ^ (index << 20))
}
/// in some executions operations run on short-lived threads: what the library keeps per thread is
/// then created and torn down around them
fn short_lived(id: &str, seed: u64, sp: &mut Spec) {
    let mut r = Rng::new(hash2(seed, 0x0717));
    if id == "C16" || id == "C07" || !r.chance(1, 8) {
        return;
    }
    let den = *r.pick(&[1usize, 2, 2, 5]);
    for t in sp.tasks.iter_mut() {
        for o in t.ops.iter_mut() {
            crate::props::on_workers(&mut r, den, o);
        }
    }
}
/// executions of concurrent worlds come in groups: one world and workload, FAMILY schedules
const FAMILY: u64 = 4;
fn generate(ctx: &mut Ctx, p: &Prop, seed: u64, pool: &Pool, index: u64) -> Spec {
    let base = index - index % FAMILY;
    crate::gen::SALT.store(run_seed(seed, p.id, index), SeqCst);
    let mut r = Rng::new(run_seed(seed, p.id, base));
    let mut sp = (p.gen)(ctx, &mut r, pool, base);
    short_lived(p.id, run_seed(seed, p.id, base), &mut sp);
    let concurrent = sp.tasks.len() - sp.tasks.iter().any(|t| t.after != 0) as usize;
    if index == base || concurrent > 1 {
        return sp;
    }
    let mut r = Rng::new(run_seed(seed, p.id, index));
    let mut sp = (p.gen)(ctx, &mut r, pool, index);
    short_lived(p.id, run_seed(seed, p.id, index), &mut sp);
    sp
}
pub fn load_pool(ctx: &mut Ctx, ps: u64) -> Pool {
    let pool = Pool::new(ps);
    let mut m = BTreeMap::new();
    for l in [&pool.cust, &pool.std, &pool.rex, &pool.sing] {
        for x in l.iter() {
            if let Some(q) = &x.q {
                m.insert(x.text.clone(), q.clone());
            }
        }
    }
    ctx.exprs = Rc::new(m);
    pool
}
/// program points which ordinary operations pass: a fixed workload, one task at a time
fn find_live() {
    let mut ctx = Ctx::new();
    let p = prop("C01");
    let pool = load_pool(&mut ctx, 0x11FE);
    for i in 0..24u64 {
        let mut r = Rng::new(hash2(0x11FE, i));
        let mut sp = (p.gen)(&mut ctx, &mut r, &pool, i);
        sp.sched.strat = 0;
        run_once(&sp);
    }
    unsafe {
        let sh = &mut *rt::SH;
        let live = (0..rt::NSITES as u32).filter(|s| sh.cov[*s as usize] != 0).collect();
        LIVE = live;
        sh.crit.fill(0);
    }
    // where threads wait for each other once everything has been used
    for i in 0..96u64 {
        let sp = crate::props::contention(&pool, i);
        run_once(&sp);
    }
    unsafe {
        let sh = &mut *rt::SH;
        CRIT = (0..rt::NSITES as u32).filter(|s| sh.crit[*s as usize] != 0).collect();
        sh.cov.fill(0);
        sh.crit.fill(0);
    }
    if std::env::var("SIM_CRIT").is_ok() {
        eprintln!("{} program points, {} in critical sections", unsafe { (*std::ptr::addr_of!(LIVE)).len() }, unsafe { (*std::ptr::addr_of!(CRIT)).len() });
    }
}

// ------------------------------------------------------------------ known findings
pub struct Known {
    pub class: String,
    pub needle: String,
    pub text: String,
}
/// lines `known: property=<id> class=<class> match=<<text>> <description>`
pub fn known(root: &Path, id: &str) -> Vec<Known> {
    let mut v = vec![];
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    for l in t.lines() {
        let Some(l) = l.strip_prefix("known: property=") else { continue };
        let Some((p, l)) = l.split_once(" class=") else { continue };
        let Some((c, l)) = l.split_once(" match=<<") else { continue };
        let Some((m, d)) = l.split_once(">> ") else { continue };
        if p == id {
            v.push(Known { class: c.into(), needle: m.into(), text: d.into() });
        }
    }
    v
}

// ------------------------------------------------------------------ workers
#[repr(C)]
struct Flags {
    stop: AtomicU32,
    next_block: AtomicU64,
    done: AtomicU64,
}
unsafe fn flags() -> &'static Flags {
    let p = libc::mmap(
        std::ptr::null_mut(),
        4096,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED);
    &*(p as *const Flags)
}
#[derive(Serialize, Deserialize, Default)]
struct WorkOut {
    counters: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    strats: BTreeMap<String, u64>,
    tags: BTreeMap<String, u64>,
    skipped: BTreeMap<String, u64>,
    samples: Vec<String>,
    unstable: Vec<String>,
    nondet: Vec<String>,
    known_hits: BTreeMap<String, u64>,
    found: Option<Replay>,
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// run + check one spec
fn judge(ctx: &mut Ctx, p: &Prop, sp: &Spec) -> (RunRes, Vec<Viol>) {
    let run = ctx.run(sp);
    let v = (p.check)(ctx, sp, &run);
    (run, v)
}

pub fn sample(sp: &Spec, run: &RunRes, index: u64) -> String {
    let ops: Vec<Vec<String>> = sp
        .tasks
        .iter()
        .enumerate()
        .map(|(t, x)| {
            (0..x.ops.len().min(6))
                .map(|i| {
                    let d = describe(sp, &OpRes { t: t as u8, i: i as u16, ..Default::default() });
                    let o = &x.ops[i];
                    let d: String = d.split_once(": ").map(|x| x.1.to_string()).unwrap_or(d).chars().take(120).collect();
                    let mut f = String::new();
                    for (k, a) in &o.plan {
                        f += &match a {
                            Act::Panic => format!(" !panic@call{}", k),
                            Act::Stall(n) if *n == u64::MAX => format!(" !suspend@call{}", k),
                            Act::Stall(n) => format!(" !stall@call{}x{}", k, n),
                            Act::Nest(_) => format!(" !reenter@call{}", k),
                            Act::Yield => format!(" !yield@call{}", k),
                            Act::Nothing => String::new(),
                        };
                    }
                    for (a, n) in &o.oom {
                        f += &format!(" !oom@alloc{}x{}", a, n);
                    }
                    d + &f
                })
                .collect()
        })
        .collect();
    json!({"index": index, "scenario": sp.tag, "strategy": sp.sched.strat, "mean_interval": sp.sched.mean,
        "seed": sp.sched.seed, "threads": ops, "switches": run.switches.len(), "events": run.total, "ended": run.status})
    .to_string()
}

fn worker(a: &Args, w: usize, fl: &Flags, end: Instant, dir: &Path) {
    let p = prop(&a.prop);
    let mut ctx = Ctx::new();
    let mut out = WorkOut::default();
    let kn = known(&a.root, &a.prop);
    let mut nidx = 0u64;
    'all: loop {
        let block = fl.next_block.fetch_add(1, SeqCst);
        let ps = pool_seed(a.seed, p.id, block);
        let pool = load_pool(&mut ctx, ps);
        // references are shared within a block only (deterministic memory use)
        ctx.memo.clear();
        for index in block * BLOCK..(block + 1) * BLOCK {
            if fl.stop.load(SeqCst) != 0 || Instant::now() >= end || index >= a.max {
                break 'all;
            }
            let rs = run_seed(a.seed, p.id, index);
            let Some((sp, run, vs)) = guarded(|| {
                let sp = generate(&mut ctx, p, a.seed, &pool, index);
                let (run, vs) = judge(&mut ctx, p, &sp);
                (sp, run, vs)
            }) else {
                out.unstable.push(format!("the harness panicked at index {}", index));
                continue;
            };
            nidx += 1;
            fl.done.fetch_add(1, SeqCst);
            if out.samples.len() < 2 && (nidx == 3 || nidx == 17) {
                out.samples.push(sample(&sp, &run, index));
            }
            if hash2(rs, 77) % 64 == 0 && run.status != "wall-limit" {
                let again = run_once(&sp);
                ctx.cov.redo += 1;
                if again.logh != run.logh
                    || again.total != run.total
                    || serde_json::to_string(&again.out).unwrap() != serde_json::to_string(&run.out).unwrap()
                {
                    out.nondet.push(format!("index {} seed {} strategy {} ({} / {}, {} / {})", index, rs, sp.sched.strat, run.status, again.status, run.total, again.total));
                }
            }
            let vs: Vec<Viol> = vs
                .into_iter()
                .filter(|v| match kn.iter().find(|k| k.class == v.class && v.msg.contains(&k.needle)) {
                    Some(k) => {
                        *out.known_hits.entry(k.text.clone()).or_insert(0) += 1;
                        false
                    }
                    None => true,
                })
                .collect();
            if vs.is_empty() {
                continue;
            }
            // the same execution again must show the same violation
            ctx.memo.clear();
            let again = guarded(|| judge(&mut ctx, p, &sp));
            let ok = again.as_ref().and_then(|(_, v2)| v2.iter().find(|x| x.class == vs[0].class)).is_some();
            if !ok {
                out.unstable.push(format!("index {}: {} {} did not happen again", index, vs[0].class, vs[0].msg));
                continue;
            }
            out.found = Some(Replay {
                property: p.id.into(),
                class: vs[0].class.clone(),
                message: vs[0].msg.clone(),
                verif_seed: a.seed,
                index,
                run_seed: rs,
                pool_seed: ps,
                events: run.total,
                event_hash: run.logh,
                switches: vec![],
                workload: vec![],
                spec: sp,
                original_spec: None,
            });
            fl.stop.store(1, SeqCst);
            break 'all;
        }
    }
    let c = &ctx.cov;
    for (k, v) in [
        ("indexes", nidx),
        ("runs", c.runs),
        ("refs", c.refs),
        ("ref_hits", c.ref_hits),
        ("switches", c.switches),
        ("preempt", c.preempt),
        ("events", c.events),
        ("sim_ns", c.sim_ns),
        ("nontrivial", c.nontrivial),
        ("redo", c.redo),
        ("ops", c.ops),
        ("checked", c.checked),
    ] {
        out.counters.insert(k.into(), v);
    }
    out.faults = c.faults.clone();
    out.strats = c.strats.clone();
    out.tags = c.tags.clone();
    out.skipped = c.skipped.clone();
    std::fs::write(dir.join(format!("w{}.json", w)), serde_json::to_vec(&out).unwrap()).unwrap();
    let mut b = vec![];
    b.extend((c.sigs.len() as u64).to_le_bytes());
    b.extend((c.pairs.len() as u64).to_le_bytes());
    for x in c.sigs.iter().chain(c.pairs.iter()) {
        b.extend(x.to_le_bytes());
    }
    unsafe {
        if !rt::SH.is_null() {
            b.extend(&(&(*rt::SH).cov)[..]);
        }
    }
    std::fs::write(dir.join(format!("w{}.bin", w)), b).unwrap();
}

fn merge(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k.clone()).or_insert(0) += v;
    }
}

pub fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let p = prop(&a.prop);
    if !std::env::var("SIM_DEBUG").is_ok() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    find_live();
    let dir = a.root.join(format!("sim/target/scratch-{}-{}", a.prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let fl = unsafe { flags() };
    if let Some(f) = a.from {
        fl.next_block.store(f / BLOCK, SeqCst);
    }
    let end = Instant::now() + Duration::from_secs_f64(a.secs);
    let mut pids = vec![];
    for w in 0..a.workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // a mapping of its own
                rt::SH = std::ptr::null_mut();
            }
            let ok = guarded(|| worker(a, w, fl, end, &dir)).is_some();
            unsafe { libc::_exit(if ok { 0 } else { 3 }) };
        }
        pids.push(pid);
    }
    let mut lost = 0;
    for pid in &pids {
        let mut st = 0;
        unsafe { while libc::waitpid(*pid, &mut st, 0) < 0 {} };
        if st != 0 {
            lost += 1;
        }
    }
    let mut all = WorkOut::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut pairs: HashSet<u64> = HashSet::new();
    let mut cov = vec![0u8; rt::NSITES];
    let mut found: Option<Replay> = None;
    for w in 0..a.workers {
        let Ok(b) = std::fs::read(dir.join(format!("w{}.json", w))) else { continue };
        let o: WorkOut = from_json(&b).unwrap();
        merge(&mut all.counters, &o.counters);
        merge(&mut all.faults, &o.faults);
        merge(&mut all.strats, &o.strats);
        merge(&mut all.tags, &o.tags);
        merge(&mut all.skipped, &o.skipped);
        merge(&mut all.known_hits, &o.known_hits);
        all.samples.extend(o.samples);
        all.unstable.extend(o.unstable);
        all.nondet.extend(o.nondet);
        if let Some(f) = o.found {
            if found.as_ref().map_or(true, |g| f.index < g.index) {
                found = Some(f);
            }
        }
        let b = std::fs::read(dir.join(format!("w{}.bin", w))).unwrap();
        let u = |i: usize| u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        let (n, m) = (u(0) as usize, u(1) as usize);
        for i in 0..n {
            sigs.insert(u(2 + i));
        }
        for i in 0..m {
            pairs.insert(u(2 + n + i));
        }
        for (i, x) in b[(2 + n + m) * 8..].iter().enumerate() {
            cov[i] |= *x;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let search_s = t0.elapsed().as_secs_f64();
    let nsites = cov.iter().filter(|x| **x != 0).count();
    let cn = |k: &str| all.counters.get(k).copied().unwrap_or(0);
    let mut code = 0;
    let mut replay_path = String::new();
    if let Some(f) = &mut found {
        let f = minimise(p, f.clone(), Instant::now() + Duration::from_secs(if a.tier == "quick" { 25 } else { 120 }));
        let rd = a.root.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{}-seed{}-index{}.json", p.id, a.seed, f.index));
        std::fs::write(&path, serde_json::to_vec_pretty(&f).unwrap()).unwrap();
        replay_path = path.display().to_string();
        print_violation(&f);
        println!("VIOLATION property={} replay={}", p.id, replay_path);
        code = 1;
    }
    for k in known(&a.root, p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.text);
    }
    if !all.nondet.is_empty() {
        eprintln!("warning: {} executions were not repeated exactly: {:?}", all.nondet.len(), &all.nondet[..all.nondet.len().min(3)]);
    }
    if !all.unstable.is_empty() {
        eprintln!("warning: {:?}", &all.unstable[..all.unstable.len().min(5)]);
    }
    if lost > 0 {
        eprintln!("warning: {} workers were lost", lost);
    }
    let runs = cn("runs");
    if code == 0 && (runs == 0 || lost == a.workers) {
        eprintln!("error: nothing was explored");
        code = 2;
    }
    let samples: Vec<Value> = all.samples.iter().take(8).map(|s| serde_json::from_str(s).unwrap()).collect();
    let ev = json!({
        "property": p.id,
        "tier": if a.tier == "thorough" { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sigs.len(),
            "rule": format!("{}. One evaluation is one simulated execution. Non-trivial: the scheduler preempted a task at least once, or a fault was injected, or (single-task histories) the executed event sequence; distinct by a hash over all switches (task, suspended at, resumed task) and over the whole event sequence.", p.rule),
            "samples": samples,
            "simulated_runs": runs,
            "seeds": cn("indexes"),
            "seeds_per_hour": (cn("indexes") as f64 / search_s * 3600.0) as u64,
            "reference_lookups": cn("refs"),
            "reference_executions": cn("refs") - cn("ref_hits"),
            "operations_executed": cn("ops"),
            "operation_outcomes_compared": cn("checked"),
            "events_executed": cn("events"),
            "simulated_seconds": cn("sim_ns") as f64 / 1e9,
            "context_switches": cn("switches"),
            "preemptions": cn("preempt"),
            "distinct_preemption_pairs": pairs.len(),
            "program_points_reached": nsites,
            "program_points_total": rt::nguards(),
            "faults_injected": all.faults,
            "scheduling_strategies": all.strats,
            "scenarios": all.tags,
            "not_judged": all.skipped,
            "re_executions_for_determinism": cn("redo"),
            "re_executions_that_differed": all.nondet.len(),
            "harness_trouble": all.unstable,
            "known_findings_seen": all.known_hits,
            "real_components": ["jsonpath_rfc9535", "jsonpath_rfc9535_pest", "jsonpath_rfc9535_pest_recursive", "jsonpath_rfc9535_serde", "jsonpath_rfc9535_iter", "jsonpath_rfc9535_locations", "jsonpath_rfc9535_singular_selector", "std threads, mutexes, once cells, thread-locals, unwinding", "pest, regex, lru, lazy_static, serde_json, indexmap (as locked)"],
            "simulated_components": ["thread scheduling", "futex system calls", "heap of the code under test", "clock, sleep, yield", "randomness (getrandom, hash seeds)", "custom functions, writers, consumers of iterators (callers)"]
        },
        "assumptions": [
            "sequentially consistent memory: one task runs at a time, weak-memory effects are not simulated",
            "preemption happens at basic-block edges, loads, stores, calls, allocations and futex operations of the seven crates (and inside their dependencies only at allocations and futex operations)",
            "the compiler instrumentation does not change behaviour"
        ],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 { 1 } else { 0 },
    });
    let ed = a.root.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} runs, {} seeds, {} distinct, {} switches, {} outcomes compared, {:.1} s{}",
        p.id,
        runs,
        cn("indexes"),
        sigs.len(),
        cn("switches"),
        cn("checked"),
        t0.elapsed().as_secs_f64(),
        if code == 1 { format!(", violation in {}", replay_path) } else { String::new() }
    );
    code
}

fn print_violation(f: &Replay) {
    println!("property {} violated at seed {} index {} (run seed {}): {}", f.property, f.verif_seed, f.index, f.run_seed, f.class);
    println!("  {}", f.message);
    for l in &f.workload {
        println!("  {}", l);
    }
    for s in f.switches.iter().take(12) {
        println!("  switch: {}", s);
    }
    if f.switches.len() > 12 {
        println!("  ... {} switches", f.switches.len());
    }
}

// ------------------------------------------------------------------ minimisation
struct Mini {
    ctx: Ctx,
    class: String,
    end: Instant,
}
impl Mini {
    fn late(&self) -> bool {
        Instant::now() >= self.end
    }
    fn fails(&mut self, p: &Prop, sp: &Spec) -> Option<(RunRes, Viol)> {
        if self.late() {
            return None;
        }
        let c = &mut self.ctx;
        let r = guarded(|| judge(c, p, sp))?;
        let v = r.1.into_iter().find(|v| v.class == self.class)?;
        Some((r.0, v))
    }
}
fn may_drop_ops(id: &str) -> bool {
    !matches!(id, "C05" | "C06" | "C07" | "C11" | "C16")
}
fn minimise(p: &Prop, mut f: Replay, end: Instant) -> Replay {
    let mut m = Mini { ctx: Ctx::new(), class: f.class.clone(), end };
    load_pool(&mut m.ctx, f.pool_seed);
    let orig = f.spec.clone();
    let Some((run, v)) = m.fails(p, &f.spec) else { return f };
    let mut best = (f.spec.clone(), run, v);
    let try_it = |m: &mut Mini, best: &mut (Spec, RunRes, Viol), s: Spec| -> bool {
        if s == best.0 {
            return false;
        }
        match m.fails(p, &s) {
            Some((r, v)) => {
                *best = (s, r, v);
                true
            }
            None => false,
        }
    };
    if may_drop_ops(p.id) {
        for _round in 0..2 {
            // whole tasks
            for t in 0..best.0.tasks.len() {
                if !best.0.tasks[t].ops.is_empty() {
                    let mut s = best.0.clone();
                    s.tasks[t].ops.clear();
                    try_it(&mut m, &mut best, s);
                }
            }
            // runs of operations, then single ones
            for t in 0..best.0.tasks.len() {
                let mut k = best.0.tasks[t].ops.len() / 2;
                while k >= 1 && !m.late() {
                    let mut i = 0;
                    while i < best.0.tasks[t].ops.len() && !m.late() {
                        let mut s = best.0.clone();
                        let j = (i + k).min(s.tasks[t].ops.len());
                        s.tasks[t].ops.drain(i..j);
                        if !try_it(&mut m, &mut best, s) {
                            i += k;
                        }
                    }
                    k /= 2;
                }
            }
        }
    }
    for t in 0..best.0.tasks.len() {
        for i in 0..best.0.tasks[t].ops.len() {
            if m.late() {
                break;
            }
            let mut k = 0;
            while k < best.0.tasks[t].ops[i].plan.len() {
                let mut s = best.0.clone();
                s.tasks[t].ops[i].plan.remove(k);
                if !try_it(&mut m, &mut best, s) {
                    k += 1;
                }
            }
            let mut k = 0;
            while k < best.0.tasks[t].ops[i].oom.len() {
                let mut s = best.0.clone();
                s.tasks[t].ops[i].oom.remove(k);
                if !try_it(&mut m, &mut best, s) {
                    k += 1;
                }
            }
            if best.0.tasks[t].ops[i].worker {
                let mut s = best.0.clone();
                s.tasks[t].ops[i].worker = false;
                try_it(&mut m, &mut best, s);
            }
            if best.0.tasks[t].ops[i].fresh {
                let mut s = best.0.clone();
                s.tasks[t].ops[i].fresh = false;
                try_it(&mut m, &mut best, s);
            }
        }
    }
    // no preemption at all?
    if best.0.sched.strat != 0 && best.0.sched.strat != 6 {
        let mut s = best.0.clone();
        s.sched.strat = 0;
        s.sched.spurious = 0;
        s.sched.hot.clear();
        try_it(&mut m, &mut best, s);
    }
    if best.0.sched.spurious != 0 {
        let mut s = best.0.clone();
        s.sched.spurious = 0;
        try_it(&mut m, &mut best, s);
    }
    // the schedule as a list of switches, then fewer of them
    if best.0.sched.strat != 0 && !best.1.stats.log_lost {
        let mut s = best.0.clone();
        s.sched.strat = 6;
        s.sched.hot.clear();
        s.sched.forced = best.1.sched.clone();
        if try_it(&mut m, &mut best, s) {
            let mut k = (best.0.sched.forced.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.0.sched.forced.len() && !m.late() {
                    let mut s = best.0.clone();
                    let j = (i + k).min(s.sched.forced.len());
                    s.sched.forced.drain(i..j);
                    if !try_it(&mut m, &mut best, s) {
                        i += k;
                    }
                }
                if k == 1 || m.late() {
                    break;
                }
                k /= 2;
            }
        }
    }
    let (spec, run, v) = best;
    f.message = v.msg;
    f.events = run.total;
    f.event_hash = run.logh;
    f.switches = switch_text(&run);
    f.workload = spec
        .tasks
        .iter()
        .enumerate()
        .flat_map(|(t, x)| {
            let spec = &spec;
            x.ops.iter().enumerate().take(20).map(move |(i, o)| {
                let d = describe(spec, &OpRes { t: t as u8, i: i as u16, ..Default::default() });
                let d: String = d.chars().take(300).collect();
                let mut f = String::new();
                if o.worker {
                    f += " on a thread of its own";
                }
                if !o.plan.is_empty() {
                    f += &format!(" plan {:?}", o.plan).chars().take(300).collect::<String>();
                }
                if !o.oom.is_empty() {
                    f += &format!(" failing allocations {:?}", o.oom);
                }
                d + &f
            })
        })
        .collect();
    if spec != orig {
        f.original_spec = Some(orig);
    }
    f.spec = spec;
    f
}
fn switch_text(run: &RunRes) -> Vec<String> {
    extern "C" {
        static __executable_start: u8;
    }
    let base = unsafe { &__executable_start as *const u8 as usize };
    let n = run.switches.len().min(40);
    let mut pcs = vec![];
    for s in &run.switches[..n] {
        pcs.push(rt::site_pc(s.1).saturating_sub(base));
        pcs.push(rt::site_pc(s.2).saturating_sub(base));
    }
    let names = symbols(&pcs);
    (0..n)
        .map(|i| {
            let (t, l, g) = run.sched[i];
            format!(
                "task {} after {} events, {} in {} -> task {} in {}",
                t,
                l,
                if run.switches[i].0 { "blocked or ended" } else { "preempted" },
                names[2 * i],
                g,
                names[2 * i + 1]
            )
        })
        .collect()
}
fn symbols(pcs: &[usize]) -> Vec<String> {
    let none = vec!["?".to_string(); pcs.len()];
    let Ok(exe) = std::env::current_exe() else { return none };
    let mut c = std::process::Command::new("addr2line");
    c.arg("-e").arg(exe).arg("-f").arg("-C").arg("-s");
    for p in pcs {
        c.arg(format!("{:x}", p));
    }
    let Ok(o) = c.output() else { return none };
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let l: Vec<&str> = t.lines().collect();
    (0..pcs.len())
        .map(|i| {
            if pcs[i] == 0 {
                "(not started)".into()
            } else {
                match (l.get(2 * i), l.get(2 * i + 1)) {
                    (Some(f), Some(p)) => format!("{} ({})", f, p.split(" (").next().unwrap_or("")),
                    _ => "?".into(),
                }
            }
        })
        .collect()
}

pub fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let f: Replay = match from_json(t.as_bytes()) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let p = prop(&f.property);
    let mut ctx = Ctx::new();
    load_pool(&mut ctx, f.pool_seed);
    let (run, vs) = judge(&mut ctx, p, &f.spec);
    println!(
        "{} events, hash {:x}: {}",
        run.total,
        run.logh,
        if run.total == f.events && run.logh == f.event_hash { "exactly the recorded execution" } else { "differs from the recorded execution" }
    );
    for s in switch_text(&run).iter().take(12) {
        println!("  switch: {}", s);
    }
    for v in &vs {
        println!("  {}: {}", v.class, v.msg);
    }
    if vs.iter().any(|v| v.class == f.class) {
        println!("VIOLATION property={} replay={}", f.property, file);
        1
    } else {
        println!("the violation did not happen");
        0
    }
}

/// shows one generated execution
pub fn show(a: &Args, index: u64) -> i32 {
    find_live();
    let p = prop(&a.prop);
    let mut ctx = Ctx::new();
    let pool = load_pool(&mut ctx, pool_seed(a.seed, p.id, index / BLOCK));
    let sp = generate(&mut ctx, p, a.seed, &pool, index);
    println!("{}", serde_json::to_string_pretty(&sp).unwrap());
    let (run, vs) = judge(&mut ctx, p, &sp);
    println!("{}", serde_json::to_string_pretty(&run.out).unwrap());
    println!("{} {} events {} switches {:?}", run.status, run.total, run.switches.len(), run.stats);
    println!("{}", sample(&sp, &run, index));
    for v in vs {
        println!("{}: {}", v.class, v.msg);
    }
    println!("{:?}", ctx.cov.skipped);
    0
}
