//! Running simulated executions in forked children, reference results, the universal oracle,
//! minimisation and replay.
use crate::engines::auto_traits;
use crate::rng::{hash2, hash_bytes, hash_str};
use crate::rt;
use crate::spec::*;
use crate::world;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Viol {
    /// class of the violation (stable under minimisation)
    pub class: String,
    pub msg: String,
}
pub fn viol(class: &str, msg: String) -> Viol {
    Viol { class: class.to_string(), msg }
}

pub struct RefRes {
    pub status: String,
    pub op: Option<OpRes>,
    pub diag: String,
    pub events: u64,
}

#[derive(Default, Clone)]
pub struct Cov {
    pub runs: u64,
    pub refs: u64,
    pub ref_hits: u64,
    pub switches: u64,
    pub preempt: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub strats: BTreeMap<String, u64>,
    pub tags: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub pairs: HashSet<u64>,
    pub sites: Vec<u8>,
    pub nontrivial: u64,
    pub redo: u64,
    pub skipped: BTreeMap<String, u64>,
    pub ops: u64,
    pub checked: u64,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub memo: HashMap<u64, Rc<RefRes>>,
    pub cov: Cov,
    /// syntax trees of generated query texts
    pub exprs: Rc<BTreeMap<String, crate::gen::Q>>,
}

pub fn status_name(s: u32) -> &'static str {
    match s {
        rt::ST_DONE => "done",
        rt::ST_DEADLOCK => "deadlock",
        rt::ST_BUDGET => "budget",
        rt::ST_SEGV => "memory-fault",
        rt::ST_FOREIGN => "foreign",
        rt::ST_NOMEM => "heap-exhausted",
        rt::ST_RUNNING => "died",
        _ => "not-started",
    }
}

/// one simulated execution in a forked child
pub fn run_once(sp: &Spec) -> RunRes {
    unsafe {
        if rt::SH.is_null() {
            rt::SH = rt::map_shared();
        }
        let sh = &mut *rt::SH;
        // everything in front of the log
        let head = std::mem::offset_of!(rt::Shared, log);
        std::ptr::write_bytes(rt::SH as *mut u8, 0, head);
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::prctl(libc::PR_SET_DUMPABLE, 0);
            let lim = libc::rlimit { rlim_cur: 40, rlim_max: 45 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            // one task runs at a time: handing over within one CPU is cheaper
            let cpu = libc::sched_getcpu();
            if cpu >= 0 && std::env::var("SIM_NOPIN").is_err() {
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpu as usize, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
            libc::alarm(240);
            world::child(sp);
        }
        assert!(pid > 0, "fork failed");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let mut r = RunRes::default();
        let mut status = status_name(sh.status).to_string();
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            status = match s {
                libc::SIGXCPU | libc::SIGKILL => "cpu-limit".into(),
                libc::SIGALRM => "wall-limit".into(),
                libc::SIGABRT => "abort".into(),
                x => format!("signal-{}", x),
            };
        } else if libc::WEXITSTATUS(st) != 0 {
            status = format!("exit-{}", libc::WEXITSTATUS(st));
        }
        r.cur_task = sh.cur_task;
        r.cur_op = sh.cur_op.to_vec();
        r.fault_addr = sh.fault_addr;
        r.fault_pc = sh.fault_pc;
        r.total = sh.total;
        r.logh = sh.logh;
        let n = sh.diag.iter().position(|c| *c == 0).unwrap_or(0);
        r.diag = String::from_utf8_lossy(&sh.diag[..n]).to_string();
        if status == "memory-fault" {
            // just below (or in) the guard of the stack of the running task?
            let t = sh.cur_task as usize;
            if t < rt::MAXT {
                let hi = rt::SIM_STACK_BASE + (t + 1) * 0x1000_0000;
                let lo = hi - 0x1000_0000;
                if (sh.fault_addr as usize) >= lo && (sh.fault_addr as usize) < hi {
                    status = "stack-overflow".into();
                }
            }
        }
        for i in 0..sh.nlog as usize {
            let l = &sh.log[i];
            r.sched.push((l.task, l.local, l.target));
            r.switches.push((l.forced != 0, l.site, l.rsite));
        }
        r.stats = Stats {
            spurious: sh.nspurious as u64,
            blocks: sh.nblocks as u64,
            oom: sh.noom as u64,
            stalls: sh.nstall as u64,
            jumps: sh.njump as u64,
            workers: sh.nworker as u64,
            sleeps: sh.nsleep as u64,
            forced: sh.nforced as u64,
            conflicts: sh.nconflict as u64,
            randoms: sh.nrandom as u64,
            clocks: sh.nclock as u64,
            blocked_by_stall: sh.blocked_by_stall != 0,
            sim_ns: sh.simns,
            log_lost: sh.log_lost != 0,
        };
        if status == "done" {
            match serde_json::from_slice::<RunOut>(&sh.out[..sh.outlen as usize]) {
                Ok(o) => r.out = o,
                Err(_) => status = "no-output".into(),
            }
        }
        r.status = status;
        r
    }
}

// ------------------------------------------------------------------ reduction to a single operation
#[derive(Default)]
struct Red {
    docs: Vec<Doc>,
    exprs: Vec<String>,
    envs: Vec<EnvSpec>,
    parsers: Vec<ParserSpec>,
    queries: Vec<QuerySpec>,
}
/// state of the objects a task mutates, as of its operation `i`
pub struct State<'a> {
    sp: &'a Spec,
    t: usize,
    i: usize,
    kinds: &'a dyn Fn(usize, usize) -> Option<String>,
}
impl<'a> State<'a> {
    fn env(&self, x: u16) -> EnvSpec {
        let mut e = self.sp.envs[x as usize].clone();
        for o in &self.sp.tasks[self.t].ops[..self.i] {
            if let Op::RegEnv { env, name, f, .. } = &o.op {
                if *env == x {
                    e.funcs.retain(|z| z.0 != *name);
                    e.removed.retain(|z| z != name);
                    match f {
                        Some(f) => e.funcs.push((*name, *f)),
                        None => e.removed.push(*name),
                    }
                }
            }
        }
        e.funcs.sort_by_key(|z| z.0);
        e.removed.sort();
        e
    }
    fn parser_at(&self, x: u16, upto: usize) -> ParserSpec {
        let mut e = self.sp.parsers[x as usize].clone();
        for o in &self.sp.tasks[self.t].ops[..upto] {
            match &o.op {
                Op::RegParser { parser, name, f, .. } if *parser == x => {
                    e.funcs.retain(|z| z.0 != *name);
                    e.removed.retain(|z| z != name);
                    match f {
                        Some(f) => e.funcs.push((*name, f.kind)),
                        None => e.removed.push(*name),
                    }
                }
                Op::Range { parser, lo, hi, .. } if *parser == x => e.range = Some((*lo, *hi)),
                _ => {}
            }
        }
        e.funcs.sort_by_key(|z| z.0);
        e.removed.sort();
        e
    }
    fn query(&self, x: u16) -> Option<(E, Option<ParserSpec>, u16)> {
        let s = &self.sp.queries[x as usize];
        let mut cur = if s.setup {
            // compiled before any task ran
            Some((s.e, s.parser.map(|p| self.parser_at(p, 0)), s.expr))
        } else {
            None
        };
        for (j, o) in self.sp.tasks[self.t].ops[..self.i].iter().enumerate() {
            match &o.op {
                Op::Compile { e, q, parser, expr } if *q == x => {
                    if (self.kinds)(self.t, j).as_deref() == Some("done") {
                        cur = Some((*e, parser.map(|p| self.parser_at(p, j)), *expr));
                    }
                }
                Op::Release { q } if *q == x => cur = None,
                _ => {}
            }
        }
        cur
    }
}
impl Red {
    fn idx<T: PartialEq>(v: &mut Vec<T>, x: T) -> u16 {
        if let Some(i) = v.iter().position(|y| *y == x) {
            return i as u16;
        }
        v.push(x);
        v.len() as u16 - 1
    }
    fn expr(&mut self, s: &State, x: u16) -> u16 {
        Self::idx(&mut self.exprs, s.sp.exprs[x as usize].clone())
    }
    fn doc(&mut self, s: &State, x: u16) -> u16 {
        Self::idx(&mut self.docs, s.sp.docs[x as usize].clone())
    }
    fn env(&mut self, s: &State, x: u16) -> u16 {
        if x == world::DEFENV {
            return x;
        }
        Self::idx(&mut self.envs, s.env(x))
    }
    fn parser(&mut self, s: &State, x: u16) -> u16 {
        Self::idx(&mut self.parsers, s.parser_at(x, s.i))
    }
    fn query(&mut self, s: &State, x: u16) -> u16 {
        let q = match s.query(x) {
            Some((e, p, ex)) => {
                let parser = p.map(|p| Self::idx(&mut self.parsers, p));
                let expr = self.expr(s, ex);
                QuerySpec { e, parser, expr, setup: true }
            }
            None => {
                let expr = self.expr(s, s.sp.queries[x as usize].expr);
                QuerySpec { e: s.sp.queries[x as usize].e, parser: None, expr, setup: false }
            }
        };
        Self::idx(&mut self.queries, q)
    }
    fn how(&mut self, s: &State, h: &How) -> How {
        match h {
            How::Top(x) => How::Top(self.expr(s, *x)),
            How::Env(x) => How::Env(self.expr(s, *x)),
            How::Std(x) => How::Std(self.expr(s, *x)),
            How::Query(q) => How::Query(self.query(s, *q)),
            How::Parser(p, x) => How::Parser(self.parser(s, *p), self.expr(s, *x)),
        }
    }
    fn op(&mut self, s: &State, o: &Op) -> Option<Op> {
        Some(match o {
            Op::Find { e, how, env, doc, loopy } | Op::Hold { e, how, env, doc, loopy, .. } => {
                let how = self.how(s, how);
                let env = match how {
                    How::Top(_) => world::DEFENV,
                    _ => self.env(s, *env),
                };
                Op::Find { e: *e, how, env, doc: self.doc(s, *doc), loopy: *loopy }
            }
            Op::Open { how, env, doc, slot } => {
                let how = self.how(s, how);
                let env = match how {
                    How::Top(_) => world::DEFENV,
                    _ => self.env(s, *env),
                };
                Op::Open { how, env, doc: self.doc(s, *doc), slot: *slot }
            }
            Op::Parse { e, parser, expr } => {
                Op::Parse { e: *e, parser: parser.map(|p| self.parser(s, p)), expr: self.expr(s, *expr) }
            }
            Op::Tokens { expr } => Op::Tokens { expr: self.expr(s, *expr) },
            Op::Render { e, how, part, w } => {
                let w = match w {
                    WPlan::Stall(_) | WPlan::Nest(..) => WPlan::Fine,
                    x => x.clone(),
                };
                Op::Render { e: *e, how: self.how(s, how), part: *part, w }
            }
            Op::Compile { e, parser, expr, .. } => {
                let parser = parser.map(|p| self.parser(s, p));
                let expr = self.expr(s, *expr);
                self.queries.push(QuerySpec { e: *e, parser: None, expr, setup: false });
                Op::Compile { e: *e, q: self.queries.len() as u16 - 1, parser, expr }
            }
            _ => return None,
        })
    }
}
fn reduced_plan(p: &[(u32, Act)], keep_panic: bool) -> Vec<(u32, Act)> {
    p.iter().filter(|(_, a)| keep_panic && matches!(a, Act::Panic)).cloned().collect()
}
/// The same operation alone: one task, one thread, fresh process, freshly built objects.
pub fn reduce(
    sp: &Spec,
    t: usize,
    i: usize,
    o: &OpSpec,
    keep_panic: bool,
    warm: bool,
    kinds: &dyn Fn(usize, usize) -> Option<String>,
) -> Option<Spec> {
    let st = State { sp, t, i, kinds };
    let mut red = Red::default();
    let mut ops: Vec<OpSpec> = vec![];
    let one = |red: &mut Red, o: &OpSpec, st: &State| -> Option<OpSpec> {
        let op = red.op(st, &o.op)?;
        Some(OpSpec { op, plan: reduced_plan(&o.plan, keep_panic), oom: vec![], fresh: false, brief: o.brief, worker: false })
    };
    match &o.op {
        Op::Pull { slot, n, mode } => {
            // the chain of this iterator
            let mut from = None;
            for (j, x) in sp.tasks[t].ops[..i].iter().enumerate() {
                match &x.op {
                    Op::Open { slot: s2, .. } if s2 == slot => from = Some(j),
                    Op::Close { slot: s2 } if s2 == slot => from = None,
                    _ => {}
                }
            }
            let j = from?;
            let st = State { sp, t, i: j, kinds };
            ops.push(one(&mut red, &sp.tasks[t].ops[j], &st)?);
            for x in &sp.tasks[t].ops[j + 1..i] {
                if let Op::Pull { slot: s2, n, mode } = &x.op {
                    if s2 == slot {
                        let mut y = OpSpec::new(Op::Pull { slot: *s2, n: *n, mode: *mode });
                        y.plan = reduced_plan(&x.plan, keep_panic);
                        ops.push(y);
                    }
                }
            }
            let mut y = OpSpec::new(Op::Pull { slot: *slot, n: *n, mode: *mode });
            y.plan = reduced_plan(&o.plan, keep_panic);
            y.brief = o.brief;
            ops.push(y);
        }
        _ => {
            let x = one(&mut red, o, &st)?;
            if warm {
                ops.push(x.clone());
            }
            ops.push(x);
        }
    }
    Some(Spec {
        prop: "ref".into(),
        names: sp.names.clone(),
        docs: red.docs,
        exprs: red.exprs,
        envs: red.envs,
        parsers: red.parsers,
        queries: red.queries,
        tasks: vec![TaskSpec { ops, after: 0, stack: 64 << 20 }],
        sched: rt::SchedSpec { budget: 400_000_000, ..Default::default() },
        mem: rt::MemSpec { reuse: 0, skew: 0, entropy: 7, clock_base: 1_000_000_000, clock_jumps: 0, scatter: 0 },
        measure_stack: false,
        tag: String::new(),
        par: vec![],
    })
}

pub fn find_op<'a>(sp: &'a Spec, r: &OpRes) -> Option<&'a OpSpec> {
    let mut o = sp.tasks.get(r.t as usize)?.ops.get(r.i as usize)?;
    for k in &r.nest {
        let mut found = None;
        for (c, a) in &o.plan {
            if c == k {
                if let Act::Nest(b) = a {
                    found = Some(&**b);
                }
            }
        }
        if found.is_none() {
            if let Op::Render { w: WPlan::Nest(c, b), .. } = &o.op {
                if c == k {
                    found = Some(&**b);
                }
            }
        }
        o = found?;
    }
    Some(o)
}
pub fn has_panic(o: &OpSpec) -> bool {
    o.plan.iter().any(|(_, a)| matches!(a, Act::Panic))
}
fn short(s: &str) -> String {
    let mut n = s.len().min(300);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s[..n].replace('\n', " | ")
}
pub fn describe(sp: &Spec, r: &OpRes) -> String {
    match find_op(sp, r) {
        Some(o) => {
            let ex = |x: &u16| sp.exprs.get(*x as usize).cloned().unwrap_or_default();
            let how = |h: &How| match h {
                How::Top(x) | How::Env(x) | How::Std(x) | How::Parser(_, x) => ex(x),
                How::Query(q) => format!("compiled {}", ex(&sp.queries[*q as usize].expr)),
            };
            let d = match &o.op {
                Op::Find { e, how: h, doc, .. } | Op::Hold { e, how: h, doc, .. } => {
                    format!("{:?} find {} on document {}", e, how(h), doc)
                }
                Op::Open { how: h, doc, .. } => format!("Iter open {} on document {}", how(h), doc),
                Op::Parse { e, expr, .. } => format!("{:?} parse {:?}", e, ex(expr)),
                Op::Render { e, how: h, w, .. } => format!("{:?} render {} ({:?})", e, how(h), w),
                Op::Compile { e, expr, .. } => format!("{:?} compile {:?}", e, ex(expr)),
                x => format!("{:?}", x),
            };
            format!("task {} operation {}{}: {}", r.t, r.i, if r.nest.is_empty() { String::new() } else { format!(" (inside call {:?})", r.nest) }, d)
        }
        None => format!("task {} operation {}", r.t, r.i),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { memo: HashMap::new(), cov: Cov { sites: vec![0; rt::NSITES], ..Default::default() }, exprs: Rc::new(BTreeMap::new()) }
    }
    pub fn reference_of(&mut self, red: &Spec) -> Rc<RefRes> {
        let key = {
            let js = serde_json::to_vec(red).unwrap();
            hash2(hash_bytes(&js), js.len() as u64)
        };
        self.cov.refs += 1;
        if let Some(r) = self.memo.get(&key) {
            self.cov.ref_hits += 1;
            return r.clone();
        }
        let r = run_once(red);
        let last = red.tasks[0].ops.len() as u16 - 1;
        let rr = Rc::new(RefRes {
            op: r.out.ops.iter().find(|o| o.i == last && o.nest.is_empty()).cloned(),
            status: r.status,
            diag: r.diag,
            events: r.total,
        });
        if self.memo.len() > 30_000 {
            self.memo.clear();
        }
        self.memo.insert(key, rr.clone());
        rr
    }
    pub fn reference(
        &mut self,
        sp: &Spec,
        run: &RunRes,
        r: &OpRes,
        keep_panic: bool,
        warm: bool,
    ) -> Option<Rc<RefRes>> {
        let o = find_op(sp, r)?;
        let kinds = |t: usize, i: usize| -> Option<String> {
            run.out.ops.iter().find(|x| x.t as usize == t && x.i as usize == i && x.nest.is_empty()).map(|x| x.k.clone())
        };
        let red = reduce(sp, r.t as usize, r.i as usize, o, keep_panic, warm, &kinds)?;
        Some(self.reference_of(&red))
    }
    pub fn bump(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.cov.faults.entry(k.to_string()).or_insert(0) += n;
        }
    }
    fn account(&mut self, sp: &Spec, run: &RunRes) {
        let c = &mut self.cov;
        c.runs += 1;
        c.events += run.total;
        c.sim_ns += run.stats.sim_ns;
        c.ops += run.out.ops.len() as u64;
        let name = ["run-to-completion", "random-intervals", "priorities", "program-points", "heap-points", "conflicting-accesses", "given", "priorities-at-shared-data", "critical-sections", "atomics", "priorities-at-atomics"]
            [sp.sched.strat as usize % 11];
        *c.strats.entry(name.into()).or_insert(0) += 1;
        if !sp.tag.is_empty() {
            *c.tags.entry(sp.tag.clone()).or_insert(0) += 1;
        }
        let mut h = 0u64;
        let mut pre = 0;
        for (i, s) in run.switches.iter().enumerate() {
            c.switches += 1;
            let (t, _, g) = run.sched[i];
            h = hash2(h, ((t as u64) << 40) ^ ((g as u64) << 32) ^ s.1 as u64);
            if !s.0 {
                pre += 1;
                c.pairs.insert(((s.1 as u64) << 32) | s.2 as u64);
            }
        }
        c.preempt += pre;
        let st = run.stats.clone();
        let mut fk: Vec<(&str, u64)> = vec![
            ("spurious futex wake-up", st.spurious),
            ("failed allocation", st.oom),
            ("indefinite or timed stall", st.stalls),
            ("clock jump", st.jumps),
            ("operation on a short-lived thread", st.workers),
        ];
        let mut nested = 0;
        let (mut pan, mut wf, mut wp, mut fresh, mut aban) = (0, 0, 0, 0, 0);
        for o in &run.out.ops {
            nested += !o.nest.is_empty() as u64;
            if o.k == "panic" && o.text.starts_with("sim-panic") {
                pan += 1;
            }
            if o.k == "refused" {
                wf += 1;
            }
            if o.k == "panic" && o.text.contains("sim-writer-panic") {
                wp += 1;
            }
        }
        for t in &sp.tasks {
            for o in &t.ops {
                fresh += o.fresh as u64;
                if let Op::Close { .. } = o.op {
                    aban += 1;
                }
            }
        }
        fk.extend([
            ("panic in a custom function", pan),
            ("refused write", wf),
            ("panic in a writer", wp),
            ("re-entrant operation", nested),
            ("iterator dropped by the caller", aban),
            ("operation on a fresh copy at re-used addresses", fresh),
            ("preemption", pre),
        ]);
        let faulty = st.oom + st.stalls + nested + pan + wf + wp > 0;
        for (k, n) in fk {
            self.bump(k, n);
        }
        let c = &mut self.cov;
        let spec_h = hash_str(&sp.tag) ^ hash2(run.logh, run.total);
        if pre > 0 || faulty || sp.tasks.len() == 1 {
            if c.sigs.len() < 2_000_000 {
                c.sigs.insert(if pre > 0 { hash2(h, spec_h) } else { spec_h });
            }
            c.nontrivial += 1;
        }
    }
    /// run a spec and account for it
    pub fn run(&mut self, sp: &Spec) -> RunRes {
        let r = run_once(sp);
        self.account(sp, &r);
        r
    }

    /// results equal the same operations alone; nothing hangs, crashes or corrupts
    pub fn universal(&mut self, sp: &Spec, run: &RunRes, warm: bool) -> Vec<Viol> {
        let mut v = vec![];
        if run.status != "done" {
            if run.status == "wall-limit" || run.status.starts_with("exit-") || run.status == "no-output" || run.status == "not-started" || run.status == "heap-exhausted" {
                *self.cov.skipped.entry(format!("run ended with {} {}", run.status, run.diag)).or_insert(0) += 1;
                return v;
            }
            if sp.prop == "C14" && (run.status == "budget" || run.status == "cpu-limit") {
                // how long operations on lists take is not what this property speaks about
                *self.cov.skipped.entry(format!("run ended with {}", run.status)).or_insert(0) += 1;
                return v;
            }
            // does the running operation end like that alone as well?
            let t = run.cur_task as usize;
            let what;
            if t >= 1 && t <= sp.tasks.len() {
                let i = run.cur_op.get(t).copied().unwrap_or(0);
                let o = OpRes { t: t as u8 - 1, i: i as u16, ..Default::default() };
                what = describe(sp, &o);
                if let Some(r) = self.reference(sp, run, &o, true, warm) {
                    if r.status == run.status && run.status != "deadlock" {
                        *self.cov.skipped.entry(format!("{} also when alone", run.status)).or_insert(0) += 1;
                        return v;
                    }
                }
            } else {
                what = format!("task {}", t);
            }
            if run.status == "budget" {
                // is it simply a lot of work?
                let mut sum = 0;
                for (t, task) in sp.tasks.iter().enumerate() {
                    for i in 0..task.ops.len() {
                        let o = OpRes { t: t as u8, i: i as u16, ..Default::default() };
                        sum += self.reference(sp, run, &o, true, warm).map(|r| r.events).unwrap_or(0);
                    }
                }
                if sum > sp.sched.budget / 8 {
                    *self.cov.skipped.entry("more work than the event budget".into()).or_insert(0) += 1;
                    return v;
                }
            }
            v.push(viol(
                &run.status,
                format!("{} in {} {}", run.status, what, if run.diag.is_empty() { String::new() } else { format!("({})", run.diag) }),
            ));
            return v;
        }
        for b in &run.out.bad {
            v.push(viol("invariant", b.clone()));
        }
        for r in &run.out.ops {
            for b in &r.bad {
                v.push(viol("invariant", format!("{}: {}", describe(sp, r), b)));
            }
            let Some(o) = find_op(sp, r) else { continue };
            let top_oom = sp.tasks[r.t as usize].ops[r.i as usize].oom.len() > 0;
            let oomf = run.out.ops.iter().find(|x| x.t == r.t && x.i == r.i && x.nest.is_empty()).map(|x| x.oomf).unwrap_or(0);
            let Some(rf) = self.reference(sp, run, r, true, warm) else {
                if r.k != "done" && !(r.k == "panic" && r.text == "sim-oom" && top_oom) {
                    v.push(viol("result", format!("{}: ended with {} {}", describe(sp, r), r.k, short(&r.text))));
                }
                continue;
            };
            self.cov.checked += 1;
            let Some(ro) = &rf.op else {
                *self.cov.skipped.entry(format!("no reference: {} {}", rf.status, rf.diag)).or_insert(0) += 1;
                continue;
            };
            let same = r.k == ro.k && r.hash == ro.hash && r.text == ro.text && r.callh == ro.callh && r.ncalls == ro.ncalls
                && (!matches!(o.op, Op::Pull { .. }) || r.x == ro.x);
            if !same {
                let allowed = top_oom && oomf > 0 && r.k == "panic" && r.text == "sim-oom" && {
                    r.calls.len() <= ro.calls.len() && r.calls[..] == ro.calls[..r.calls.len()]
                };
                // rendering reports what was accepted before the failure
                let allowed = allowed
                    || (top_oom && oomf > 0 && r.k == "panic" && r.text.ends_with("\u{1}sim-oom")
                        && ro.text.starts_with(&r.text[..r.text.len() - 8]));
                if !allowed {
                    let class = if r.k != ro.k {
                        format!("outcome-{}-instead-of-{}", r.k, ro.k)
                    } else if r.hash != ro.hash || r.text != ro.text {
                        "result".into()
                    } else {
                        "calls".into()
                    };
                    let detail = if class == "calls" {
                        let k = (0..r.calls.len().max(ro.calls.len())).find(|k| r.calls.get(*k) != ro.calls.get(*k)).unwrap_or(0);
                        format!("call {}: {:?} instead of {:?} ({} calls instead of {})", k, r.calls.get(k), ro.calls.get(k), r.ncalls, ro.ncalls)
                    } else {
                        format!("{} {:?} instead of {} {:?}", r.k, short(&r.text), ro.k, short(&ro.text))
                    };
                    v.push(viol(&class, format!("{}: {}", describe(sp, r), detail)));
                    continue;
                }
            }
            if has_panic(o) && r.k == "panic" && r.text.starts_with("sim-panic") {
                // a prefix of the calls of the undisturbed evaluation
                if let Some(cl) = self.reference(sp, run, r, false, warm) {
                    if let Some(c) = &cl.op {
                        let n = r.calls.len();
                        if n as u32 == r.ncalls && !(n <= c.calls.len() && r.calls[..] == c.calls[..n]) {
                            v.push(viol("calls-prefix", format!("{}: the calls made before the panic are not a prefix of the calls of the undisturbed evaluation", describe(sp, r))));
                        }
                    }
                }
            } else if has_panic(o) && oomf == 0 && !matches!(o.op, Op::Render { .. }) {
                if let Some((k, _)) = o.plan.iter().find(|(k, a)| matches!(a, Act::Panic) && *k < r.ncalls) {
                    v.push(viol("panic-lost", format!("{}: the panic at call {} did not reach the caller ({} {})", describe(sp, r), k, r.k, short(&r.text))));
                }
            }
            // progress: about as many steps as alone, and no waiting for those that are suspended
            if r.waited > 100_000 && ro.slept < r.waited / 10 {
                v.push(viol("waits", format!("{}: waited {} ns while another thread was suspended, {} ns when alone", describe(sp, r), r.waited, ro.slept)));
            }
            let nested: u64 = run.out.ops.iter().filter(|x| x.t == r.t && x.i == r.i && x.nest.len() > r.nest.len() && x.nest[..r.nest.len()] == r.nest[..]).map(|x| x.events).sum();
            if r.events > 10 * (ro.events + nested) + 200_000 {
                v.push(viol("steps", format!("{}: took {} steps, {} when alone", describe(sp, r), r.events, ro.events)));
            }
        }
        v
    }
}

pub fn trait_loss() -> Vec<Viol> {
    auto_traits()
        .into_iter()
        .filter(|(_, s, n)| !s || !n)
        .map(|(t, s, _)| viol("not-shareable", format!("{} is no longer {}", t, if !s { "Sync" } else { "Send" })))
        .collect()
}
