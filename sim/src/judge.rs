//! The oracles: each looks at what a run recorded and says whether the
//! property it decides was broken.

use crate::exec::{self, End, Out, Rec, Run};
use crate::model::{self, Want};
use crate::plan::{altered, Call, Kind, Op, Plan, Schedule, Sink, Spec, NESTED, REPEAT, ROUTES, SLOTS, SLOWER};
use simcore::{CbFault, Refuse};
use std::collections::HashMap;

pub const CAP: usize = 62;

#[derive(Clone, Debug)]
pub struct Violation {
    /// What kind of violation: minimisation keeps it.
    pub class: String,
    pub detail: String,
}

fn v(class: &str, detail: impl Into<String>) -> Violation {
    Violation { class: class.into(), detail: detail.into() }
}

fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 80 {
        let head: String = s.chars().take(60).collect();
        format!("{}… ({} bytes)", lossy(head.as_bytes()), b.len())
    } else {
        s.chars().map(|c| if c.is_control() { '\u{fffd}' } else { c }).collect()
    }
}

pub fn say(o: &Out) -> String {
    match o {
        Out::Text(t) => format!("\"{}\"", lossy(t)),
        Out::NoZero => "Err(NoZeroSymbol)".into(),
        Out::Oom(n) => format!("Err(OutOfMemory({n}))"),
        Out::Oob(n) => format!("Err(OutOfBounds({n}))"),
        Out::UnknownError => "an unknown error".into(),
        Out::InjectedPanic(_) => "the injected panic".into(),
        Out::Panic(m) => format!("panic: {m}"),
        Out::Refused(_) => "Err(OutOfMemoryError)".into(),
        Out::Bits(b) => format!("comparison bits {b:b}"),
        Out::Shown { ok, panicked, failed, taken, after } => format!(
            "display ok={ok} panicked={panicked} sink failed={failed} writes after the failure={after}, taken \"{}\"",
            lossy(taken)
        ),
        Out::Owned(t) => format!("String \"{}\"", lossy(t)),
        Out::Back(t) => format!("itself back, \"{}\"", lossy(t)),
        Out::Nothing => "done".into(),
        Out::Skipped => "skipped".into(),
    }
}

fn describe(p: &Plan, c: &Call) -> String {
    format!("{:?} of {}{:?} in {} ({:?})", c.mode, c.v, c.ty, p.sys[c.sys].text(), c.wrap).to_lowercase()
}

fn want_text(w: &Want) -> String {
    match w {
        Want::Text(r) => match r.text(400) {
            Some(t) => format!("\"{}\"", lossy(t.as_bytes())),
            None => format!("a text of {} bytes", r.len()),
        },
        x => format!("{x:?}"),
    }
}

/// Is `out` what `call` may return, given how many requests were refused?
pub fn call_ok(p: &Plan, c: &Call, out: &Out, refused: u64) -> Result<(), Violation> {
    let max = c.ty.max();
    let w = model::want(&p.sys[c.sys], c.v, max);
    let bad = |class: &str| {
        Err(v(
            class,
            format!(
                "{} gave {}; expected {}{}",
                describe(p, c),
                say(out),
                want_text(&w),
                if p.heap {
                    format!(" ({refused} heap requests refused)")
                } else {
                    " (build without heap)".into()
                }
            ),
        ))
    };
    // May memory have run out on the way to the answer?
    let short = |len: u128| if p.heap { refused > 0 } else { len > CAP as u128 };
    if let Out::Panic(_) = out {
        return bad("panic");
    }
    if c.mode.fallible() {
        match out {
            Out::Text(t) => match &w {
                Want::Text(r) if same(r, t) && (p.heap || t.len() <= CAP) => Ok(()),
                _ => bad("wrong-text"),
            },
            Out::Oom(n) if *n != c.v => bad("wrong-number-in-error"),
            Out::Oom(_) => match &w {
                Want::Text(r) if short(r.len()) => Ok(()),
                Want::Oob { partial } if short(*partial) => Ok(()),
                Want::AnyError if refused > 0 => Ok(()),
                _ => bad("spurious-out-of-memory"),
            },
            Out::NoZero if matches!(w, Want::NoZero | Want::AnyError) => Ok(()),
            Out::Oob(n) if *n != c.v => bad("wrong-number-in-error"),
            Out::Oob(_) if matches!(w, Want::Oob { .. } | Want::AnyError) => Ok(()),
            _ => bad("wrong-error"),
        }
    } else {
        let decimal = c.v.to_string();
        let own = matches!(c.mode, sut::Mode::Format | sut::Mode::To);
        let full = if own {
            Some(model::want_infallible(&p.sys[c.sys], c.v, max))
        } else {
            match &w {
                Want::Text(r) => Some(r.clone()),
                _ => None,
            }
        };
        match out {
            Out::Text(t) => {
                if let Some(r) = &full {
                    if same(r, t) && (p.heap || t.len() <= CAP) {
                        return Ok(());
                    }
                    if t == decimal.as_bytes() && short(r.len()) {
                        return Ok(());
                    }
                    bad("wrong-text")
                } else if t == decimal.as_bytes() {
                    Ok(())
                } else {
                    bad("wrong-fallback")
                }
            }
            _ => bad("no-answer"),
        }
    }
}

fn same(r: &model::Rle, t: &[u8]) -> bool {
    r.len() == t.len() as u128 && r.text(1 << 20).is_some_and(|s| s.as_bytes() == t)
}

// ------------------------------------------------------------ string model

#[derive(Clone, Default)]
struct Ordinary {
    text: String,
    /// The text was longer than the inline capacity once, or was adopted from
    /// an existing heap string.
    ever: bool,
}

#[derive(Default)]
struct Slots([Option<Ordinary>; SLOTS]);

impl Slots {
    /// Would the text stay within the inline capacity if the step is accepted?
    fn fits(&self, op: &Op) -> bool {
        let len = |i: usize| self.0[i].as_ref().map_or(0, |s| s.text.len());
        CAP >= match &op.kind {
            Kind::Push { slot, c } | Kind::PushFront { slot, c } => len(*slot) + c.len_utf8(),
            Kind::PushStr { slot, text } => len(*slot) + text.make().len(),
            Kind::PushSlot { slot, from } => len(*slot) + len(*from),
            Kind::FromStr { text, .. } | Kind::FromString { text, .. } => text.make().len(),
            Kind::Rebuild { from, how, .. } => self.0[*from].as_ref().map_or(0, |s| altered(&s.text, *how / ROUTES).len()),
            _ => 0,
        }
    }

    /// Applies the step, and says what is wrong with what was recorded of it.
    fn step(&mut self, p: &Plan, op: &Op, r: &Rec) -> Result<(), Violation> {
        let bad = |class: &str, want: &str| {
            Err(v(
                class,
                format!(
                    "{}: got {}, text \"{}\", inline={}; expected {}",
                    op.text(),
                    say(&r.out),
                    lossy(&r.state),
                    r.flags & 1 == 1,
                    want
                ),
            ))
        };
        if let Out::Panic(_) | Out::InjectedPanic(_) = r.out {
            if !matches!(op.kind, Kind::Fmt { .. } | Kind::Show { .. }) {
                return bad("string-panic", "no panic");
            }
        }
        let missing = |s: &Slots, i: usize| s.0[i].is_none();
        let needs: &[usize] = match &op.kind {
            Kind::Push { slot, .. }
            | Kind::PushStr { slot, .. }
            | Kind::PushFront { slot, .. }
            | Kind::Case { slot, .. }
            | Kind::CompareText { slot, .. }
            | Kind::IntoString { slot }
            | Kind::TryIntoString { slot }
            | Kind::Debug { slot }
            | Kind::Show { slot, .. }
            | Kind::Drop { slot } => &[*slot],
            Kind::PushSlot { slot, from } => &[*slot, *from],
            Kind::Clone { from, .. } | Kind::Rebuild { from, .. } => &[*from],
            Kind::Compare { slot, with } => &[*slot, *with],
            _ => &[],
        };
        if needs.iter().any(|&i| missing(self, i)) {
            return if r.out == Out::Skipped { Ok(()) } else { bad("harness", "skipped") };
        }
        if r.out == Out::Skipped {
            return Ok(());
        }
        let text = |t: &crate::plan::Text| t.make();
        let get = |s: &Slots, i: usize| s.0[i].clone().unwrap();
        // (slot, new text if accepted, infallible)
        let grown: Option<(usize, String)> = match &op.kind {
            Kind::Push { slot, c } => Some((*slot, get(self, *slot).text + &c.to_string())),
            Kind::PushStr { slot, text: t } => Some((*slot, get(self, *slot).text + &text(t))),
            Kind::PushSlot { slot, from } => {
                Some((*slot, get(self, *slot).text + &get(self, *from).text))
            }
            Kind::PushFront { slot, c } => {
                Some((*slot, format!("{c}{}", get(self, *slot).text)))
            }
            _ => None,
        };
        let mut touched = None;
        if let Some((i, new)) = grown {
            touched = Some(i);
            match r.out {
                Out::Refused(_) => {
                    let may = if p.heap { r.refused > 0 } else { new.len() > CAP };
                    if !may {
                        return bad("refused", "the step to be accepted, as no memory was refused");
                    }
                }
                _ => {
                    if !p.heap && new.len() > CAP {
                        return bad("accepted", "the step to be refused, as it doesn't fit inline");
                    }
                    let s = self.0[i].as_mut().unwrap();
                    s.text = new;
                    s.ever |= s.text.len() > CAP;
                }
            }
        } else {
            let fresh = |t: String, adopted: bool| {
                let ever = adopted || t.len() > CAP;
                Some(Ordinary { text: t, ever })
            };
            match &op.kind {
                Kind::Fmt { slot, .. } => {
                    if let Some(i) = slot {
                        self.0[*i] = match &r.out {
                            Out::Text(t) => fresh(String::from_utf8_lossy(t).into_owned(), false),
                            _ => None,
                        };
                    }
                    return Ok(());
                }
                Kind::New { slot, .. } => {
                    self.0[*slot] = fresh(String::new(), false);
                    touched = Some(*slot);
                }
                Kind::FromStr { slot, text: t } => {
                    self.0[*slot] = fresh(text(t), false);
                    touched = Some(*slot);
                }
                Kind::FromChar { slot, c } => {
                    self.0[*slot] = fresh(c.to_string(), false);
                    touched = Some(*slot);
                }
                Kind::FromString { slot, text: t, by_ref } => {
                    self.0[*slot] = fresh(text(t), !by_ref && p.heap);
                    touched = Some(*slot);
                }
                Kind::Case { slot, upper } => {
                    let s = &mut self.0[*slot].as_mut().unwrap().text;
                    if *upper {
                        s.make_ascii_uppercase();
                    } else {
                        s.make_ascii_lowercase();
                    }
                    touched = Some(*slot);
                }
                Kind::Clone { slot, from, .. } => {
                    self.0[*slot] = self.0[*from].clone();
                    touched = Some(*slot);
                }
                Kind::Rebuild { slot, from, how } => {
                    let t = altered(&get(self, *from).text, *how / ROUTES);
                    if r.out == Out::Refused(vec![]) {
                        self.0[*slot] = None;
                        if if p.heap { r.refused == 0 } else { t.len() <= CAP } {
                            return bad("refused", "the step to be accepted, as no memory was refused");
                        }
                        return Ok(());
                    }
                    if !p.heap && t.len() > CAP {
                        return bad("accepted", "the step to be refused, as it doesn't fit inline");
                    }
                    self.0[*slot] = fresh(t, false);
                    touched = Some(*slot);
                }
                Kind::Compare { slot, with } => {
                    let (a, b) = (get(self, *slot), get(self, *with));
                    let w = sut::str_compare(&a.text, &b.text);
                    if r.out != Out::Bits(w) {
                        return bad("compare", &format!("comparison bits {w:b}"));
                    }
                    touched = Some(*slot);
                }
                Kind::CompareText { slot, text: t } => {
                    let w = sut::str_compare_string(&get(self, *slot).text, &text(t));
                    if r.out != Out::Bits(w) {
                        return bad("compare", &format!("comparison bits {w:b}"));
                    }
                    touched = Some(*slot);
                }
                Kind::IntoString { slot } => {
                    let s = self.0[*slot].take().unwrap();
                    return if r.out == Out::Owned(s.text.clone().into_bytes()) {
                        Ok(())
                    } else {
                        bad("into-string", &format!("\"{}\"", lossy(s.text.as_bytes())))
                    };
                }
                Kind::TryIntoString { slot } => {
                    let s = get(self, *slot);
                    match &r.out {
                        Out::Owned(t) if t == s.text.as_bytes() && s.ever => {
                            self.0[*slot] = None;
                            return Ok(());
                        }
                        Out::Back(t) if t == s.text.as_bytes() && s.text.len() <= CAP => {
                            touched = Some(*slot);
                        }
                        _ => {
                            return bad("into-string", &format!("\"{}\"", lossy(s.text.as_bytes())))
                        }
                    }
                }
                Kind::Debug { slot } => {
                    let s = get(self, *slot);
                    let quoted = format!("{:?}", s.text);
                    if r.out != Out::Bits(1) || !String::from_utf8_lossy(&r.debug).contains(&quoted) {
                        return bad("debug", &format!("what any string of that text shows, not {}", lossy(&r.debug)));
                    }
                    touched = Some(*slot);
                }
                Kind::Show { slot, .. } => touched = Some(*slot),
                Kind::Drop { slot } => self.0[*slot] = None,
                _ => {}
            }
        }
        if let Some(i) = touched {
            let s = self.0[i].as_ref().unwrap();
            if r.flags & 4 == 0 {
                return bad("string-text", &format!("\"{}\"", lossy(s.text.as_bytes())));
            }
            if r.flags & 2 == 0 {
                return bad("invalid-unicode", &format!("\"{}\"", lossy(s.text.as_bytes())));
            }
            if r.state != s.text.as_bytes() {
                return bad("string-text", &format!("\"{}\"", lossy(s.text.as_bytes())));
            }
            let inline = r.flags & 1 == 1;
            if (inline && s.text.len() > CAP) || (!inline && !s.ever) {
                return bad("inline", if s.ever { "not inline" } else { "inline" });
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------ judging

#[derive(Default)]
pub struct Judge {
    solo: HashMap<String, (End, Option<Out>)>,
    pub solo_runs: u64,
    /// Alarms that belong to other properties, by class.
    pub other: HashMap<String, u64>,
}

struct Found<'a> {
    task: usize,
    op: &'a Op,
    rec: &'a Rec,
    nested: bool,
    repeat: bool,
}

fn pair<'a>(p: &'a Plan, run: &'a Run) -> Vec<Found<'a>> {
    let mut idx: HashMap<u32, (usize, &Op)> = HashMap::new();
    for (t, ops) in p.tasks.iter().enumerate() {
        for o in ops {
            idx.insert(o.id, (t, o));
        }
    }
    run.recs
        .iter()
        .filter_map(|r| {
            let id = r.op & !(NESTED | REPEAT);
            idx.get(&id).map(|&(task, op)| Found {
                task,
                op,
                rec: r,
                nested: r.op & NESTED != 0,
                repeat: r.op & REPEAT != 0,
            })
        })
        .collect()
}

impl Judge {
    fn elsewhere(&mut self, class: &str) {
        *self.other.entry(class.into()).or_default() += 1;
    }

    fn run_solo(&mut self, p: &Plan, ops: Vec<Op>, id: u32) -> (End, Option<Out>) {
        let mut q = p.clone();
        q.tasks = vec![ops];
        q.schedule = Schedule::Explicit(vec![]);
        let key = {
            let mut k = q.text();
            k.push_str(&id.to_string());
            // The number of the operation doesn't matter when it is alone.
            if q.tasks[0].len() == 1 {
                k = k.replace(&format!("op {id} "), "op X ");
            }
            let cut = k.find("ceiling").unwrap_or(0);
            k[cut..].to_string()
        };
        if let Some(x) = self.solo.get(&key) {
            return x.clone();
        }
        self.solo_runs += 1;
        let r = exec::run(&q);
        let out = r.recs.iter().find(|r| r.op == id).map(|r| r.out.clone());
        let x = (r.end, out);
        if self.solo.len() > 50_000 {
            self.solo.clear();
        }
        self.solo.insert(key, x.clone());
        x
    }

    /// What the operation gives when it runs alone in a fresh process.
    fn alone(&mut self, p: &Plan, f: &Found) -> (End, Option<Out>) {
        let mut op = f.op.clone();
        op.rep = 1;
        if f.nested {
            let Some(c) = f.op.nested else { return (End::Done, None) };
            let o = Op::new(op.id, Kind::Fmt { call: c, slot: None });
            return self.run_solo(p, vec![o], f.op.id);
        }
        if let CbFault::Reenter(_) = op.fault {
            op.fault = CbFault::None;
        }
        match &mut op.kind {
            Kind::Fmt { slot, .. } => {
                *slot = None;
                let id = op.id;
                self.run_solo(p, vec![op], id)
            }
            _ => {
                // A string step needs the steps before it.
                let at = p.tasks[f.task].iter().position(|o| o.id == op.id).unwrap();
                let ops: Vec<Op> = p.tasks[f.task][..=at]
                    .iter()
                    .filter(|o| match o.kind {
                        Kind::Fmt { slot: None, .. } | Kind::Grow { .. } => false,
                        Kind::Show { .. } => o.id == op.id,
                        _ => true,
                    })
                    .map(|o| Op { rep: 1, ..o.clone() })
                    .collect();
                let id = op.id;
                self.run_solo(p, ops, id)
            }
        }
    }

    fn task_alone_ok(&mut self, p: &Plan, t: usize) -> bool {
        let mut q = p.clone();
        q.tasks = vec![p.tasks[t].clone()];
        q.schedule = Schedule::Explicit(vec![]);
        self.solo_runs += 1;
        exec::run(&q).end == End::Done
    }

    /// How a run that did not end by itself is named.
    fn end_class(end: &End) -> (&'static str, String) {
        match end {
            End::Done => ("done", String::new()),
            End::Fatal(m, t, o) => {
                let c = match m.split(':').next().unwrap() {
                    "limit" => "endless",
                    "ledger" => "ledger",
                    "digit" => "digit",
                    _ => "harness",
                };
                (c, format!("{m} (task {t}, operation {})", o & !NESTED))
            }
            End::Crash(m, t, o) => {
                let c = if m == "stalled" { "stalled" } else { "abort" };
                (c, format!("the process ended with {m} (task {t}, operation {})", o & !NESTED))
            }
        }
    }

    fn op_text(p: &Plan, end: &End) -> String {
        let id = match end {
            End::Fatal(_, _, o) | End::Crash(_, _, o) => o & !(NESTED | REPEAT),
            End::Done => return String::new(),
        };
        p.tasks
            .iter()
            .flatten()
            .find(|o| o.id == id)
            .map_or(String::new(), |o| match &o.kind {
                Kind::Fmt { call, .. } => format!(" in {}", describe(p, call)),
                _ => format!(" in {}", o.text()),
            })
    }

    pub fn judge(&mut self, p: &Plan, run: &Run) -> Option<Violation> {
        let (class, detail) = Self::end_class(&run.end);
        let detail = detail + &Self::op_text(p, &run.end);
        let found = pair(p, run);
        match p.prop.as_str() {
            "C01" | "C02" => {
                let fallible = p.prop == "C01";
                // What a collection represents that grows meanwhile isn't known.
                let grows = p.tasks.iter().flatten().any(|o| matches!(o.fault, CbFault::Grow(_)));
                for f in &found {
                    let (Some(c), false) = (f.op.call(), f.nested) else { continue };
                    if c.mode.fallible() != fallible || matches!(f.rec.out, Out::InjectedPanic(_)) {
                        continue;
                    }
                    if grows && matches!(p.sys[c.sys], Spec::Dig(_)) {
                        let class = match f.rec.out {
                            Out::Panic(_) => "panic",
                            Out::Oom(n) | Out::Oob(n) if n != c.v => "wrong-number-in-error",
                            Out::Oom(_) if p.heap && f.rec.refused == 0 => "spurious-out-of-memory",
                            _ => continue,
                        };
                        return Some(v(class, format!("{} gave {}", describe(p, c), say(&f.rec.out))));
                    }
                    if let Err(x) = call_ok(p, c, &f.rec.out, f.rec.refused) {
                        return Some(x);
                    }
                }
                match class {
                    "done" => None,
                    "abort" | "stalled" | "endless" => Some(v(class, detail)),
                    _ => {
                        self.elsewhere(class);
                        None
                    }
                }
            }
            "C03" => {
                for t in 0..p.tasks.len() {
                    let mut s = Slots::default();
                    for f in found.iter().filter(|f| f.task == t && !f.nested && !f.repeat) {
                        if let Err(x) = s.step(p, f.op, f.rec) {
                            return Some(x);
                        }
                    }
                }
                match class {
                    "done" => None,
                    "abort" | "stalled" | "endless" => Some(v(class, detail)),
                    _ => {
                        self.elsewhere(class);
                        None
                    }
                }
            }
            "C04" => self.c04(p, &found, class, &detail),
            "C05" => {
                if class == "ledger" {
                    return Some(v("ledger", detail));
                }
                if class == "abort" && detail.contains("signal 11") {
                    return Some(v("crash", detail));
                }
                if class != "done" {
                    self.elsewhere(class);
                }
                if p.tasks.len() == 1 {
                    for f in &found {
                        if f.op.call().is_some()
                            && matches!(f.op.kind, Kind::Fmt { slot: None, .. })
                            && !f.nested
                            && !f.repeat
                            && f.rec.live.1 != f.rec.live.0
                        {
                            return Some(v(
                                "leak",
                                format!(
                                    "{} gave {} and left {} blocks behind",
                                    describe(p, f.op.call().unwrap()),
                                    say(&f.rec.out),
                                    f.rec.live.1 - f.rec.live.0
                                ),
                            ));
                        }
                    }
                }
                None
            }
            "C06" | "C07" | "C11" => self.interference(p, run, &found, class, &detail),
            "C08" => self.c08(p, &found, class, &detail),
            "C10" => self.c10(p, &found, class, &detail),
            "C12" => self.c12(p, &found, class, &detail),
            "C13" => self.c13(p, &found, class, &detail),
            _ => panic!("no oracle for {}", p.prop),
        }
    }

    fn c04(&mut self, p: &Plan, found: &[Found], class: &str, detail: &str) -> Option<Violation> {
        let mut s = Slots::default();
        for f in found.iter().filter(|f| !f.nested) {
            if let Some(c) = f.op.call() {
                let fits = match model::want(&p.sys[c.sys], c.v, c.ty.max()) {
                    Want::Text(r) => r.len() <= CAP as u128,
                    Want::Oob { partial } => partial <= CAP as u128,
                    _ => true,
                };
                if fits {
                    if f.rec.reqs > 0 {
                        return Some(v(
                            "heap-request",
                            format!(
                                "{} made {} heap requests and gave {}",
                                describe(p, c),
                                f.rec.reqs,
                                say(&f.rec.out)
                            ),
                        ));
                    }
                    if let Out::Oom(_) = f.rec.out {
                        return Some(v("out-of-memory", format!("{} gave {}", describe(p, c), say(&f.rec.out))));
                    }
                }
                if !f.repeat {
                    let _ = s.step(p, f.op, f.rec);
                }
                continue;
            }
            let concerned: Vec<usize> = f.op.kind.clone().slots().into_iter().map(|i| *i).collect();
            let all_fit = |s: &Slots| concerned.iter().filter_map(|&i| s.0[i].as_ref()).all(|x| !x.ever);
            let before = all_fit(&s) && s.fits(f.op);
            let ok = s.step(p, f.op, f.rec);
            if before && all_fit(&s) && !matches!(f.op.kind, Kind::IntoString { .. }) {
                if f.rec.reqs > 0 {
                    return Some(v(
                        "heap-request",
                        format!("{} made {} heap requests", f.op.text(), f.rec.reqs),
                    ));
                }
                match ok {
                    Err(x) if x.class == "refused" => return Some(x),
                    Err(x) => self.elsewhere(&x.class),
                    _ => {}
                }
            }
        }
        match class {
            "done" => None,
            "abort" => Some(v("abort", detail)),
            _ => {
                self.elsewhere(class);
                None
            }
        }
    }

    fn interference(
        &mut self,
        p: &Plan,
        run: &Run,
        found: &[Found],
        class: &str,
        detail: &str,
    ) -> Option<Violation> {
        let prop = p.prop.as_str();
        match class {
            "done" => {}
            "harness" => {
                self.elsewhere(class);
                return None;
            }
            _ => {
                // Would it have happened to any of them alone?
                let alone = if p.tasks.len() > 1 {
                    (0..p.tasks.len()).all(|t| self.task_alone_ok(p, t))
                } else {
                    let id = match &run.end {
                        End::Fatal(_, _, o) | End::Crash(_, _, o) => o & !(NESTED | REPEAT),
                        End::Done => 0,
                    };
                    match p.tasks[0].iter().find(|o| o.id == id) {
                        Some(o) if o.call().is_some() => {
                            let mut o = o.clone();
                            o.rep = 1;
                            self.run_solo(p, vec![o], id).0 == End::Done
                        }
                        // Found out after the last operation: is it any of
                        // them by itself?
                        _ => {
                            p.tasks[0].iter().filter(|o| o.call().is_some()).all(|o| {
                                let mut o = o.clone();
                                o.rep = 1;
                                let id = o.id;
                                self.run_solo(p, vec![o], id).0 == End::Done
                            }) && class != "ledger"
                        }
                    }
                };
                if alone {
                    let c = match (prop, class) {
                        ("C11", "endless" | "stalled") => "blocked",
                        (_, c) => c,
                    };
                    if prop != "C11" || c == "blocked" || run.switches.iter().any(|w| w.kill == 1) {
                        return Some(v(c, format!("{detail}; alone it does not happen")));
                    }
                }
                self.elsewhere(class);
                return None;
            }
        }
        let killed: u32 = run.switches.iter().filter(|w| w.kill == 1).fold(0, |m, w| m | 1 << w.task);
        if prop == "C11" {
            if killed == 0 {
                return None;
            }
            for (t, ops) in p.tasks.iter().enumerate() {
                if killed >> t & 1 == 0 {
                    let last = ops.last().map(|o| o.id);
                    if let Some(id) = last {
                        if !found.iter().any(|f| f.op.id == id) {
                            return Some(v("blocked", format!("task {t} never got to its operation {id}")));
                        }
                    }
                }
            }
        }
        for t in 0..p.tasks.len() {
            let mut s = Slots::default();
            for f in found.iter().filter(|f| f.task == t) {
                if f.repeat && f.rec.flags & SLOWER != 0 {
                    continue;
                }
                if f.repeat {
                    return Some(v("history", repeated(p, f)));
                }
                let call = if f.nested { f.op.nested.as_ref() } else { f.op.call() };
                let mut check = None;
                if let Some(c) = call {
                    if prop == "C11" && f.rec.ticks > 4 * bound(f.rec) {
                        check = Some(v("slow", format!("{} took {} steps", describe(p, c), f.rec.ticks)));
                    }
                    if !matches!(f.rec.out, Out::InjectedPanic(_)) {
                        if let Err(x) = call_ok(p, c, &f.rec.out, f.rec.refused) {
                            check = Some(x);
                        }
                    } else if f.rec.out != Out::InjectedPanic(f.op.id) {
                        check = Some(v("panic", "the panic of another call"));
                    }
                    // Now and then look at what happens alone even though the
                    // result is the expected one.
                    if check.is_none() && (p.seed ^ u64::from(f.op.id)) % 97 == 0 {
                        check = Some(v("differs-from-alone", String::new()));
                    }
                }
                if !f.nested {
                    if let Kind::Show { slot, .. } = &f.op.kind {
                        if let Some(o) = &s.0[*slot] {
                            check = shown_ok(f.op, &o.text, f.rec).err();
                        }
                    }
                    if let Err(x) = s.step(p, f.op, f.rec) {
                        check = Some(x);
                    }
                }
                if let Some(x) = check {
                    let (end, out) = self.alone(p, f);
                    if end == End::Done && out.as_ref() != Some(&f.rec.out) && (out.is_some() || f.nested) {
                        let Some(out) = out else { continue };
                        let what = match call {
                            Some(c) => describe(p, c),
                            None => f.op.text(),
                        };
                        let class = match prop {
                            "C06" => "interference",
                            "C11" => "disturbed",
                            _ => "history",
                        };
                        return Some(v(
                            class,
                            format!("{what} gave {}; alone it gives {}", say(&f.rec.out), say(&out)),
                        ));
                    }
                    if x.class != "differs-from-alone" {
                        self.elsewhere(&x.class);
                    }
                }
            }
        }
        None
    }

    fn c08(&mut self, p: &Plan, found: &[Found], class: &str, detail: &str) -> Option<Violation> {
        let mut s = Slots::default();
        for f in found.iter().filter(|f| !f.nested) {
            if f.repeat {
                if matches!(f.op.kind, Kind::Show { .. }) {
                    return Some(v("repeat-differs", repeated(p, f)));
                }
                continue;
            }
            let before: Option<Ordinary> = match &f.op.kind {
                Kind::Show { slot, .. } => s.0[*slot].clone(),
                _ => None,
            };
            let stepped = s.step(p, f.op, f.rec);
            if let Some(text) = before {
                if let Err(x) = shown_ok(f.op, &text.text, f.rec) {
                    return Some(x);
                }
                if let Err(x) = stepped {
                    return Some(x);
                }
            } else if let Err(x) = stepped {
                self.elsewhere(&x.class);
                return None;
            }
        }
        match class {
            "done" => None,
            "abort" | "stalled" | "endless" if detail.contains("show") => Some(v(class, detail)),
            _ => {
                self.elsewhere(class);
                None
            }
        }
    }

    fn c10(&mut self, p: &Plan, found: &[Found], class: &str, detail: &str) -> Option<Violation> {
        if class == "endless" || class == "stalled" {
            return Some(v("endless", detail));
        }
        if class != "done" {
            self.elsewhere(class);
        }
        for f in found {
            let Some(c) = f.op.call() else { continue };
            if f.nested {
                continue;
            }
            let b = bound(f.rec);
            if f.rec.ticks > b {
                return Some(v(
                    "too-much-work",
                    format!(
                        "{} took {} steps and gave {}, with at most {} bytes of memory at a time; the bound is {b}",
                        describe(p, c),
                        f.rec.ticks,
                        say(&f.rec.out),
                        f.rec.peak
                    ),
                ));
            }
            let b = moving(f.rec);
            if f.rec.moved > b {
                return Some(v(
                    "too-much-copying",
                    format!(
                        "{} moved {} bytes and gave {}, with at most {} bytes of memory at a time; the bound is {b}",
                        describe(p, c),
                        f.rec.moved,
                        say(&f.rec.out),
                        f.rec.peak
                    ),
                ));
            }
            if f.rec.tail_reqs > TAIL_REQS {
                return Some(v(
                    "asks-again",
                    format!(
                        "{} asked for memory {} more times after it was refused for good and gave {}",
                        describe(p, c),
                        f.rec.tail_reqs,
                        say(&f.rec.out)
                    ),
                ));
            }
            if f.rec.tail > TAIL {
                return Some(v(
                    "late-stop",
                    format!(
                        "{} took {} more steps after memory was refused for good and gave {}",
                        describe(p, c),
                        f.rec.tail,
                        say(&f.rec.out)
                    ),
                ));
            }
        }
        None
    }

    fn c12(&mut self, p: &Plan, found: &[Found], class: &str, detail: &str) -> Option<Violation> {
        for f in found.iter().filter(|f| !f.nested) {
            let Some(c) = f.op.call() else { continue };
            if f.repeat && (p.tasks.len() > 1 || f.rec.flags & SLOWER != 0) {
                continue;
            }
            if let CbFault::Panic(k) = f.op.fault {
                // A repeat is recorded only if it ended otherwise.
                let fired = f.rec.cbs > k || f.repeat;
                let bad = |class: &str, want: &str| {
                    Some(v(
                        class,
                        format!(
                            "{} with a panic at call-out {k}: {}; expected {want}",
                            describe(p, c),
                            say(&f.rec.out)
                        ),
                    ))
                };
                if fired {
                    match &f.rec.out {
                        Out::InjectedPanic(o) if *o == f.op.id => {}
                        Out::InjectedPanic(_) | Out::Panic(_) => {
                            return bad("panic-replaced", "that very panic")
                        }
                        _ => return bad("panic-swallowed", "the panic to reach the caller"),
                    }
                    // With several callers the ledger is closed at the end.
                    if p.tasks.len() == 1 && f.rec.live.1 != f.rec.live.0 {
                        return bad("leak", "nothing to stay allocated");
                    }
                    continue;
                }
            }
            if f.op.fault == CbFault::None {
                // The same call without a panic.
                if let Err(x) = call_ok(p, c, &f.rec.out, f.rec.refused) {
                    let (end, out) = self.alone(p, f);
                    if end == End::Done && out.as_ref() != Some(&f.rec.out) {
                        return Some(v(
                            "unusable-after-panic",
                            format!(
                                "{} gave {} after an earlier call was unwound; alone it gives {}",
                                describe(p, c),
                                say(&f.rec.out),
                                out.map_or("nothing".into(), |o| say(&o))
                            ),
                        ));
                    }
                    self.elsewhere(&x.class);
                }
            }
        }
        if class == "done" {
            return None;
        }
        // Stopped: because of the panic, or anyway?
        let mut q = p.clone();
        for o in q.tasks.iter_mut().flatten() {
            if let CbFault::Panic(_) = o.fault {
                o.fault = CbFault::None;
            }
        }
        self.solo_runs += 1;
        if class != "harness" && exec::run(&q).end == End::Done {
            return Some(v(class, format!("{detail}, where a caller's code panicked")));
        }
        self.elsewhere(class);
        None
    }

    fn c13(&mut self, p: &Plan, found: &[Found], class: &str, detail: &str) -> Option<Violation> {
        let grows = p.tasks.iter().flatten().any(|o| {
            matches!(o.kind, Kind::Grow { .. }) || matches!(o.fault, CbFault::Grow(_))
        });
        for f in found.iter().filter(|f| !f.nested) {
            let Some(c) = f.op.call() else { continue };
            if let Out::Panic(m) = &f.rec.out {
                return Some(v("panic", format!("{} panicked: {m}", describe(p, c))));
            }
            let Spec::Dig(_) = &p.sys[c.sys] else { continue };
            if !grows {
                let w = model::want(&p.sys[c.sys], c.v, c.ty.max());
                if !matches!(w, Want::Text(_)) && c.mode.fallible() {
                    if let Out::Text(_) = &f.rec.out {
                        return Some(v(
                            "not-an-error",
                            format!("{} gave {}; expected an error", describe(p, c), say(&f.rec.out)),
                        ));
                    }
                }
            }
        }
        match class {
            "done" => None,
            "digit" => Some(v("digit", detail)),
            "abort" | "endless" | "stalled" => Some(v(class, detail)),
            _ => {
                self.elsewhere(class);
                None
            }
        }
    }

    /// C09: the same plan in both builds.
    pub fn judge_pair(&mut self, p: &Plan, heap: &Run, none: &Run) -> Option<Violation> {
        let (hc, hd) = Self::end_class(&heap.end);
        let (nc, nd) = Self::end_class(&none.end);
        if hc != "done" || nc != "done" {
            if hc == nc || hc == "harness" || nc == "harness" || hc == "ledger" {
                self.elsewhere(hc);
                return None;
            }
            return Some(v("ends-differ", format!("with heap: {hc} {hd}; without: {nc} {nd}{}", Self::op_text(p, &none.end))));
        }
        let a = pair(p, heap);
        let b = pair(p, none);
        let mut diverged = [false; SLOTS];
        // What the strings of the build without heap held after the last step.
        let mut held: [Option<Vec<u8>>; SLOTS] = Default::default();
        for f in &a {
            let Some(g) = b.iter().find(|g| g.rec.op == f.rec.op) else {
                return Some(v("ends-differ", format!("{} was not recorded without heap", f.op.text())));
            };
            let bad = |class: &str| {
                let what = match f.op.call() {
                    Some(c) => describe(p, c),
                    None => f.op.text(),
                };
                Some(v(
                    class,
                    format!(
                        "{what}: with heap {} \"{}\"; without {} \"{}\"",
                        say(&f.rec.out),
                        lossy(&f.rec.state),
                        say(&g.rec.out),
                        lossy(&g.rec.state)
                    ),
                ))
            };
            match &f.op.kind {
                // Not there in both builds, or memory ran out in one of them.
                Kind::Clone { slot, .. }
                | Kind::FromString { slot, .. }
                | Kind::IntoString { slot }
                | Kind::TryIntoString { slot } => {
                    diverged[*slot] = true;
                    continue;
                }
                Kind::Fmt { slot: Some(slot), .. }
                | Kind::Push { slot, .. }
                | Kind::PushStr { slot, .. }
                | Kind::PushSlot { slot, .. }
                | Kind::PushFront { slot, .. }
                | Kind::New { slot, .. }
                | Kind::FromStr { slot, .. }
                | Kind::Rebuild { slot, .. }
                    if f.rec.refused > 0 =>
                {
                    diverged[*slot] = true;
                    continue;
                }
                _ if f.rec.refused > 0 => continue,
                _ => {}
            }
            if let Some(c) = f.op.call() {
                if let Kind::Fmt { slot: Some(i), .. } = &f.op.kind {
                    diverged[*i] = f.rec.out != g.rec.out;
                    held[*i] = None;
                }
                let long = |t: &Vec<u8>| t.len() > CAP;
                match (&f.rec.out, &g.rec.out) {
                    (Out::Text(t), o) if !long(t) => {
                        if *o != f.rec.out {
                            return bad("builds-differ");
                        }
                    }
                    (Out::Text(_), o) => {
                        let ok = if c.mode.fallible() {
                            *o == Out::Oom(c.v)
                        } else {
                            *o == Out::Text(c.v.to_string().into_bytes())
                        };
                        if !ok {
                            return bad("long-text");
                        }
                    }
                    (x, y) if x == y => {}
                    // A partial text may have run out of room before the number
                    // turned out not to be representable.
                    (Out::Oob(_), Out::Oom(n)) if *n == c.v => {
                        let w = model::want(&p.sys[c.sys], c.v, c.ty.max());
                        if !matches!(w, Want::Oob { partial } if partial > CAP as u128) {
                            return bad("builds-differ");
                        }
                    }
                    _ => return bad("builds-differ"),
                }
                continue;
            }
            let slots: Vec<usize> = match &f.op.kind {
                Kind::New { slot, .. } | Kind::FromStr { slot, .. } | Kind::FromChar { slot, .. } => {
                    diverged[*slot] = false;
                    vec![*slot]
                }
                Kind::Rebuild { slot, from, .. } => {
                    if f.rec.out == Out::Skipped && g.rec.out == Out::Skipped {
                        continue;
                    }
                    diverged[*slot] = diverged[*from];
                    vec![*slot, *from]
                }
                Kind::PushSlot { slot, from } => vec![*slot, *from],
                Kind::Compare { slot, with } => vec![*slot, *with],
                Kind::Push { slot, .. }
                | Kind::PushStr { slot, .. }
                | Kind::PushFront { slot, .. }
                | Kind::Case { slot, .. }
                | Kind::Debug { slot }
                | Kind::Show { slot, .. }
                | Kind::Drop { slot } => vec![*slot],
                _ => continue,
            };
            if slots.iter().any(|&i| diverged[i]) {
                diverged[slots[0]] = true;
                held[slots[0]] = None;
                continue;
            }
            if f.rec.flags & 4 != 0 && f.rec.state.len() > CAP {
                // The build without heap must have refused the step.
                diverged[slots[0]] = true;
                if !matches!(g.rec.out, Out::Refused(_)) || g.rec.state.len() > CAP {
                    return bad("long-step");
                }
                let append = matches!(
                    f.op.kind,
                    Kind::Push { .. } | Kind::PushStr { .. } | Kind::PushSlot { .. } | Kind::PushFront { .. }
                );
                if append && held[slots[0]].as_ref().is_some_and(|t| *t != g.rec.state) {
                    return bad("refused-step-changed-text");
                }
                continue;
            }
            if f.rec.out != g.rec.out || f.rec.state != g.rec.state || f.rec.flags != g.rec.flags {
                return bad("steps-differ");
            }
            // A step that was skipped shows no text.
            if g.rec.flags & 4 != 0 {
                held[slots[0]] = Some(g.rec.state.clone());
            }
        }
        None
    }
}

fn repeated(p: &Plan, f: &Found) -> String {
    let what = f.op.call().map_or_else(|| f.op.text(), |c| describe(p, c));
    format!("{what}: repeating it {} times changed its result to {}", f.rec.cbs, say(&f.rec.out))
}

/// Displaying a string: what the output took and what was reported.
fn shown_ok(op: &Op, text: &str, rec: &Rec) -> Result<(), Violation> {
    let Kind::Show { form, w, p: prec, sink, .. } = &op.kind else { return Ok(()) };
    let mut full = String::new();
    if *form >= sut::FORMS {
        full = String::from_utf8_lossy(&rec.debug).into_owned();
    } else {
        let _ = sut::show_str(text, *form, *w as usize, *prec as usize, &mut full);
    }
    let bad = |class: &str, want: &str| {
        Err(v(
            class,
            format!(
                "displaying \"{}\" (form {form}, width {w}, precision {prec}, sink {sink:?}): {}; expected {want}",
                lossy(text.as_bytes()),
                say(&rec.out)
            ),
        ))
    };
    if rec.reqs > 0 {
        return bad("heap-request", &format!("no heap request, not {}", rec.reqs));
    }
    let Out::Shown { ok, panicked, failed, taken, after } = &rec.out else {
        return bad("panic", "no panic of the library");
    };
    if *panicked {
        if !matches!(sink, Sink::Panic(_)) {
            return bad("panic", "no panic");
        }
        if !full.as_bytes().starts_with(taken) {
            return bad("not-a-prefix", &format!("a prefix of \"{}\"", lossy(full.as_bytes())));
        }
    } else if *failed {
        if *ok {
            return bad("failure-swallowed", "the failure to be reported");
        }
        if *after > 0 {
            return bad("written-after-failure", "nothing written after the failure");
        }
        if !full.as_bytes().starts_with(taken) {
            return bad("not-a-prefix", &format!("a prefix of \"{}\"", lossy(full.as_bytes())));
        }
    } else if !*ok {
        return bad("spurious-failure", "success, as the sink did not fail");
    } else if taken != full.as_bytes() {
        return bad("wrong-output", &format!("\"{}\"", lossy(full.as_bytes())));
    }
    Ok(())
}

/// Steps a call may take: fixed work, and work for every byte of text or of
/// memory held at once.
pub fn bound(r: &Rec) -> u64 {
    let text = match &r.out {
        Out::Text(t) => t.len() as u64,
        _ => 0,
    };
    FIXED + PER_BYTE * (text.max(r.peak.max(0) as u64) + CAP as u64)
}

/// Bytes a call may copy: some, and some for every byte of text or of memory
/// held at once.
pub fn moving(r: &Rec) -> u64 {
    let text = match &r.out {
        Out::Text(t) => t.len() as u64,
        _ => 0,
    };
    FIXED_MOVED + MOVED_PER_BYTE * (text.max(r.peak.max(0) as u64) + CAP as u64)
}

pub const FIXED_MOVED: u64 = 65_536;
pub const MOVED_PER_BYTE: u64 = 64;
pub const FIXED: u64 = 8_000;
pub const PER_BYTE: u64 = 200;
pub const TAIL: u64 = 6_000;
pub const TAIL_REQS: u64 = 64;

#[allow(unused)]
fn unused(_: Refuse) {}
