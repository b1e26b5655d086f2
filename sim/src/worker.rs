//! The command line: searches, replays, and serves the other build.

use crate::exec::{self, Run};
use crate::gen;
use crate::judge::{self, Judge, Violation};
use crate::minim;
use crate::model::{self, Want};
use crate::plan::{Kind, Plan, Schedule, Spec};
use simcore::rng::mix;
use simcore::{shm, CbFault, Refuse};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HEAP: bool = cfg!(feature = "heap");

/// A process of the build without heap support that runs plans for us.
struct Server {
    child: Child,
}

impl Server {
    fn start() -> Server {
        let path = std::env::var("NOMSIM_NOHEAP").expect("NOMSIM_NOHEAP: the binary of the build without heap");
        let child = Command::new(path)
            .arg("serve")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("cannot start the build without heap");
        Server { child }
    }

    fn run(&mut self, p: &Plan) -> Run {
        let t = p.text();
        let w = self.child.stdin.as_mut().unwrap();
        w.write_all(&(t.len() as u64).to_le_bytes()).unwrap();
        w.write_all(t.as_bytes()).unwrap();
        w.flush().unwrap();
        let r = self.child.stdout.as_mut().unwrap();
        let mut n = [0; 8];
        r.read_exact(&mut n).unwrap();
        let mut b = vec![0; u64::from_le_bytes(n) as usize];
        r.read_exact(&mut b).unwrap();
        exec::decode_run(&b)
    }
}

fn serve() {
    let (mut i, mut o) = (std::io::stdin(), std::io::stdout());
    let mut n = [0; 8];
    while i.read_exact(&mut n).is_ok() {
        let mut b = vec![0; u64::from_le_bytes(n) as usize];
        i.read_exact(&mut b).unwrap();
        let p = Plan::parse(&String::from_utf8(b).unwrap());
        let r = exec::encode_run(&exec::run(&p));
        o.write_all(&(r.len() as u64).to_le_bytes()).unwrap();
        o.write_all(&r).unwrap();
        o.flush().unwrap();
    }
}

/// Runs a plan and judges it.
pub struct Examiner {
    pub judge: Judge,
    server: Option<Server>,
    pub runs: u64,
    pub faults: Faults,
}

/// What the simulator did in all runs so far, as counted where it happened.
#[derive(Default, Clone, Copy)]
pub struct Faults([u64; 13]);

const FAULTS: [&str; 13] = [
    "yield_points",
    "shared_loads",
    "shared_stores",
    "callbacks",
    "suspended_mid_call",
    "callers_killed",
    "callback_panics",
    "reentrant_calls",
    "collection_growths",
    "sink_faults",
    "heap_requests",
    "heap_refusals",
    "operations",
];

impl Examiner {
    pub fn new() -> Self {
        Examiner { judge: Judge::default(), server: None, runs: 0, faults: Faults::default() }
    }

    pub fn examine(&mut self, p: &Plan) -> (Run, Option<Violation>) {
        self.runs += 1;
        let run = exec::run(p);
        let s = shm();
        let now = [
            s.ticks,
            s.shared_loads,
            s.shared_stores,
            s.callbacks,
            s.preemptions,
            s.kills,
            s.cb_panics,
            s.cb_reenters,
            s.grow,
            s.sink_faults,
            s.alloc_requests,
            s.alloc_refused,
            run.recs.len() as u64,
        ];
        for (a, b) in self.faults.0.iter_mut().zip(now) {
            *a += b;
        }
        let v = if p.prop == "C09" {
            let none = self.server.get_or_insert_with(Server::start).run(p);
            self.judge.judge_pair(p, &run, &none)
        } else {
            self.judge.judge(p, &run)
        };
        (run, v)
    }
}

// ------------------------------------------------------------ searching

fn arg<T: std::str::FromStr>(name: &str, or: T) -> T {
    let a: Vec<String> = std::env::args().collect();
    a.iter()
        .position(|x| x == name)
        .and_then(|i| a.get(i + 1))
        .and_then(|x| x.parse().ok())
        .unwrap_or(or)
}

pub fn seed_of(base: u64, index: u64) -> u64 {
    mix(mix(base) ^ index)
}

/// Does the run put to the test what the property is about?  Part of the rule
/// the evidence states.
fn counts(p: &Plan, run: &Run) -> bool {
    let s = shm();
    match p.prop.as_str() {
        "C01" | "C02" => {
            if p.heap {
                s.alloc_refused > 0
            } else {
                run.recs.iter().any(|r| matches!(r.out, exec::Out::Oom(_)))
                    || p.tasks.iter().flatten().any(|o| {
                        o.call().is_some_and(|c| {
                            match model::want(&p.sys[c.sys], c.v, c.ty.max()) {
                                Want::Text(r) => r.len() > judge::CAP as u128,
                                _ => true,
                            }
                        })
                    })
            }
        }
        "C03" => run.recs.iter().any(|r| {
            r.state.len() > judge::CAP || matches!(r.out, exec::Out::Refused(_))
        }),
        "C04" => run.recs.iter().any(|r| r.state.len() > 48 || matches!(&r.out, exec::Out::Text(t) if t.len() > 48)),
        "C05" => s.alloc_refused > 0 && s.alloc_requests > s.alloc_refused || s.cb_panics > 0,
        "C06" => s.preemptions > 0 || s.cb_reenters > 0,
        "C07" => s.alloc_refused + s.cb_panics + s.sink_faults > 0,
        "C08" => s.sink_faults > 0,
        "C09" => run.recs.iter().any(|r| match &r.out {
            exec::Out::Text(t) => t.len() > 54,
            _ => r.state.len() > 54,
        }),
        "C10" => s.alloc_refused > 0 || run.recs.iter().any(|r| r.ticks > 5000 || matches!(r.out, exec::Out::Oom(_))),
        "C11" => s.kills > 0,
        "C12" => s.cb_panics > 0,
        "C13" => s.callbacks > 0,
        _ => true,
    }
}

/// What makes a run distinct: the schedule and everything observed.
fn signature(p: &Plan, run: &Run) -> u64 {
    let mut h = run.digest;
    for s in &p.sys {
        for b in s.text().bytes() {
            h = mix(h ^ u64::from(b));
        }
    }
    h
}

/// The interleaving alone: who handed over to whom, in which kind of
/// operation and after how many steps.
fn interleaving(p: &Plan, run: &Run) -> u64 {
    let mut h = 7;
    for w in &run.switches {
        let kind = p.tasks.iter().flatten().find(|o| o.id == w.op).map_or(0, |o| match &o.kind {
            Kind::Fmt { call, .. } => {
                let mut k = 1;
                for b in p.sys[call.sys].text().bytes() {
                    k = mix(k ^ u64::from(b));
                }
                k ^ call.ty as u64
            }
            _ => 2,
        });
        for x in [u64::from(w.task), kind, w.tick, u64::from(w.to), u64::from(w.kill)] {
            h = mix(h ^ x);
        }
    }
    h
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn trace(p: &Plan, run: &Run) -> String {
    let mut s = String::new();
    let mut idx = std::collections::HashMap::new();
    for (t, ops) in p.tasks.iter().enumerate() {
        for o in ops {
            idx.insert(o.id, (t, o));
        }
    }
    for r in run.recs.iter().take(400) {
        let id = r.op & !(crate::plan::NESTED | crate::plan::REPEAT);
        let Some((t, _)) = idx.get(&id) else { continue };
        s += &format!(
            "# [{}..{}] caller {t} operation {id}{}: {} ({} steps, {} heap requests, {} refused, {} bytes obtained)\n",
            r.at.0,
            r.at.1,
            if r.op & crate::plan::NESTED != 0 { " (nested)" } else { "" },
            judge::say(&r.out),
            r.ticks,
            r.reqs,
            r.refused,
            r.obtained
        );
    }
    s.push_str(&format!("# end: {:?}\n", run.end));
    s
}

fn batch() {
    let prop: String = arg("--prop", String::new());
    let seed: u64 = arg("--seed", 1);
    let first: u64 = arg("--first", 0);
    let stride: u64 = arg("--stride", 1);
    let max: u64 = arg("--runs", u64::MAX);
    let secs: f64 = arg("--secs", 10.0);
    let out: String = arg("--out", "/dev/stdout".into());
    let hashes: String = arg("--hashes", String::new());
    let replay: String = arg("--replay", String::new());
    let list = std::env::args().any(|a| a == "--digests");
    let start = Instant::now();
    let end = start + Duration::from_secs_f64(secs);
    let mut x = Examiner::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut inter: HashSet<u64> = HashSet::new();
    let mut counted = 0u64;
    let mut plans = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut rechecked = 0u64;
    let mut mismatches = 0u64;
    let mut unconfirmed: Vec<String> = vec![];
    let mut strategies: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima = [0u64; 6];
    let mut found = None;
    let mut i = first;
    while plans < max && Instant::now() < end {
        let s = seed_of(seed, i);
        i += stride;
        let p = gen::plan(&prop, HEAP, s);
        let (run, v) = x.examine(&p);
        plans += 1;
        maxima[3] = maxima[3].max(run.cpu_ms);
        if list {
            println!("{s} {:016x} {:?}", run.digest, run.end);
        }
        if p.tasks.len() > 1 {
            if let Schedule::Random { strategy, .. } = &p.schedule {
                *strategies.entry(format!("{strategy:?}")).or_default() += 1;
            }
            inter.insert(interleaving(&p, &run));
        }
        for r in run.recs.iter().filter(|r| matches!(r.out, exec::Out::Text(_) | exec::Out::Oom(_) | exec::Out::Oob(_))) {
            let b = judge::bound(r);
            maxima[0] = maxima[0].max(r.ticks);
            maxima[1] = maxima[1].max(r.ticks * 1000 / b);
            maxima[2] = maxima[2].max(r.tail);
            maxima[4] = maxima[4].max(r.tail_reqs);
            maxima[5] = maxima[5].max(r.moved * 1000 / judge::moving(r));
        }
        if counts(&p, &run) {
            counted += 1;
            sigs.insert(signature(&p, &run));
            if samples.len() < 2 && plans % 7 == 1 && p.n_ops() < 40 {
                samples.push(format!("{}{}", p.text(), trace(&p, &run)));
            }
        }
        if plans % 50 == 0 && v.is_none() {
            rechecked += 1;
            let (again, _) = x.examine(&p);
            if again.digest != run.digest {
                mismatches += 1;
            }
        }
        if let Some(v) = v {
            // Once more: what cannot be repeated is not reported.
            let (_, w) = x.examine(&p);
            if w.as_ref().map(|w| &w.class) == Some(&v.class) {
                found = Some((p, v));
                break;
            }
            unconfirmed.push(format!("seed {s}: {}: {}", v.class, v.detail));
            if unconfirmed.len() > 20 {
                break;
            }
        }
    }
    let searched = start.elapsed().as_secs_f64();
    let faults = x.faults;
    let search_runs = x.runs;
    let mut o = String::from("{");
    let mut field = |k: &str, v: String| {
        if o.len() > 1 {
            o.push(',');
        }
        o += &format!("{}:{v}", json_str(k));
    };
    field("plans", plans.to_string());
    field("runs", (search_runs + x.judge.solo_runs).to_string());
    field("alone_runs", x.judge.solo_runs.to_string());
    field("counted", counted.to_string());
    field("distinct", sigs.len().to_string());
    field("interleavings", inter.len().to_string());
    for (k, v) in FAULTS.iter().zip(faults.0) {
        field(k, v.to_string());
    }
    let edges = shm().edges.iter().filter(|&&e| e != 0).count();
    let at = shm().suspended_at.iter().filter(|&&e| e != 0).count();
    field("blocks_executed", edges.to_string());
    field("blocks_suspended_at", at.to_string());
    field("blocks_total", simcore::n_guards().to_string());
    field("rechecked", rechecked.to_string());
    field("mismatches", mismatches.to_string());
    field("seconds", format!("{searched:.3}"));
    field("max_steps", maxima[0].to_string());
    field("max_bound_permille", maxima[1].to_string());
    field("max_copy_permille", maxima[5].to_string());
    field("max_tail", maxima[2].to_string());
    field("max_run_cpu_ms", maxima[3].to_string());
    field("max_tail_requests", maxima[4].to_string());
    let list = |m: &mut dyn Iterator<Item = (String, u64)>| {
        let v: Vec<String> = m.map(|(k, v)| format!("{}:{v}", json_str(&k))).collect();
        format!("{{{}}}", v.join(","))
    };
    field("strategies", list(&mut strategies.into_iter()));
    let mut other: Vec<_> = x.judge.other.clone().into_iter().collect();
    other.sort();
    field("other", list(&mut other.into_iter()));
    let texts = |v: &[String]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","));
    field("samples", texts(&samples));
    field("unconfirmed", texts(&unconfirmed));
    if let Some((p, v)) = found {
        let small = minim::minimise(&mut x, &p, v.clone(), arg("--minim", 60));
        let (run, w) = x.examine(&small.plan);
        let ok = w.as_ref().is_some_and(|w| w.class == small.violation.class);
        let (plan, viol, run) = if ok {
            (small.plan, small.violation, run)
        } else {
            let (run, _) = x.examine(&p);
            (p, v, run)
        };
        let text = format!(
            "{}# violation {}: {}\n# found with seed {}, made small in {} runs\n# what happened:\n{}",
            plan.text(),
            viol.class,
            viol.detail.replace('\n', "\\n"),
            plan.seed,
            small.tries,
            trace(&plan, &run)
        );
        if !replay.is_empty() {
            std::fs::write(&replay, &text).unwrap();
        }
        field("violation", format!(
            "{{\"class\":{},\"detail\":{},\"ops\":{},\"seed\":{},\"tries\":{},\"text\":{}}}",
            json_str(&viol.class),
            json_str(&viol.detail),
            plan.n_ops(),
            plan.seed,
            small.tries,
            json_str(&text)
        ));
    }
    o.push_str("}\n");
    std::fs::write(&out, o).unwrap();
    if !hashes.is_empty() {
        let mut b = vec![];
        for s in [&sigs, &inter] {
            b.extend_from_slice(&(s.len() as u64).to_le_bytes());
            for h in s {
                b.extend_from_slice(&h.to_le_bytes());
            }
        }
        for e in [&shm().edges, &shm().suspended_at] {
            b.extend_from_slice(&e[..]);
        }
        std::fs::write(&hashes, b).unwrap();
    }
}

fn replay() -> i32 {
    let file = std::env::args().nth(2).expect("file");
    let p = Plan::parse(&std::fs::read_to_string(&file).expect("cannot read the file"));
    assert_eq!(p.heap, HEAP, "the plan is for the other build");
    let mut x = Examiner::new();
    let (run, v) = x.examine(&p);
    print!("{}", trace(&p, &run));
    println!("digest {:016x}", run.digest);
    match v {
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Compares the model with the library on many numbers, with enough memory:
/// what the oracles take for granted.
fn selftest() -> i32 {
    let mut bad = 0;
    let mut n = 0;
    let seed: u64 = arg("--seed", 1);
    let mut specs: Vec<Spec> = sut::NAMED.iter().map(|n| Spec::Named(n)).collect();
    for i in 0..32u8 {
        specs.push(Spec::Zh(sut::Zh {
            traditional: i & 1 == 1,
            formal: i & 2 == 2,
            financial: i & 4 == 4,
            scale: i >> 3,
        }));
    }
    specs.extend((0..500).map(|k| gen::some_dig(seed_of(seed, k))));
    for s in &specs {
        let mut p = gen::plan("C01", HEAP, 1);
        p.ceiling = 1 << 14;
        p.limit = 1 << 40;
        p.sys = vec![s.clone()];
        let mut ops = vec![];
        let mut id = 0;
        for k in 0..arg("--rounds", 60u64) {
            let q = gen::values(s, seed_of(seed, k));
            for c in q {
                id += 1;
                ops.push(crate::plan::Op::new(id, Kind::Fmt { call: c, slot: None }));
            }
        }
        p.tasks = vec![ops];
        p.prop = "C01".into();
        n += p.n_ops();
        let run = exec::run(&p);
        if run.end != exec::End::Done {
            println!("{}: {:?}", s.text(), run.end);
            bad += 1;
        }
        let mut shown = 0;
        for r in &run.recs {
            let o = p.tasks[0].iter().find(|o| o.id == r.op).unwrap();
            if let Err(v) = judge::call_ok(&p, o.call().unwrap(), &r.out, r.refused) {
                bad += 1;
                shown += 1;
                if shown < 4 {
                    println!("{}: {}", v.class, v.detail);
                }
            }
        }
    }
    println!("{n} calls, {bad} differences");
    i32::from(bad > 0)
}

pub fn main() {
    // Addresses do not depend on the run.
    unsafe {
        const NO_RANDOM: u64 = 0x0040000;
        let now = simcore::c::personality(0xffff_ffff);
        if now >= 0 && now as u64 & NO_RANDOM == 0 && std::env::var_os("NOMSIM_FIXED").is_none() {
            simcore::c::personality(now as u64 | NO_RANDOM);
            use std::os::unix::process::CommandExt;
            let e = Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("NOMSIM_FIXED", "1").exec();
            eprintln!("cannot restart: {e}");
        }
        simcore::c::prctl(1, 9);
    }
    crate::exec::install_timer();
    simcore::init_worker();
    let code = match std::env::args().nth(1).as_deref() {
        Some("batch") => {
            batch();
            0
        }
        Some("replay") => replay(),
        Some("serve") => {
            serve();
            0
        }
        Some("selftest") => selftest(),
        Some("plan") => {
            print!("{}", gen::plan(&arg::<String>("--prop", "C01".into()), HEAP, arg("--seed", 1)).text());
            0
        }
        _ => {
            eprintln!("nomsim batch|replay FILE|serve|selftest|plan");
            2
        }
    };
    std::process::exit(code);
}

#[allow(unused)]
const _: (Refuse, CbFault) = (Refuse::None, CbFault::None);
