//! Executes a plan in a forked process and hands back what was recorded.

use crate::plan::{altered, Call, Kind, Op, Plan, Schedule, Sink, Spec, NESTED, REPEAT, ROUTES, SLOTS, SLOWER};
use simcore::{begin_op, boundary, c, cur, fatal, rec_push, shm, CbFault, Refuse, Sched, SimPanic};
use sut::nominals::NominalString;
use sut::{AnySys, Failed};

// ------------------------------------------------------------ records

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    /// A text (of a formatting call, or the state of a string after a step).
    Text(Vec<u8>),
    NoZero,
    Oom(u128),
    Oob(u128),
    UnknownError,
    /// A panic reached the caller: one that was injected in the operation
    /// given, or one of the library.
    InjectedPanic(u32),
    Panic(String),
    /// A string step was refused.
    Refused(Vec<u8>),
    Bits(u32),
    /// Displaying: result ok?, bytes taken, writes after the failure.
    Shown { ok: bool, panicked: bool, failed: bool, taken: Vec<u8>, after: u32 },
    /// An owned ordinary string the conversion gave.
    Owned(Vec<u8>),
    /// `try_into_string` gave the string back.
    Back(Vec<u8>),
    Nothing,
    /// The slot was empty: the step did nothing.
    Skipped,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub task: u32,
    pub op: u32,
    pub out: Out,
    /// State flags of the string touched: 1 inline, 2 valid UTF-8, 4 exists.
    pub flags: u32,
    pub ticks: u64,
    pub tail: u64,
    /// Requests refused after memory was refused for good.
    pub tail_reqs: u64,
    pub reqs: u64,
    pub refused: u64,
    pub obtained: u64,
    pub peak: i64,
    pub moved: u64,
    pub cbs: u32,
    /// Blocks alive before and after.
    pub live: (i64, i64),
    /// Bytes of `out` after an error of a sink etc.; the text of the slot.
    pub state: Vec<u8>,
    pub debug: Vec<u8>,
    pub at: (u64, u64),
}

struct Enc(Vec<u8>);
impl Enc {
    fn u(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    fn b(&mut self, x: &[u8]) {
        self.u(x.len() as u64);
        self.0.extend_from_slice(x);
    }
    fn w(&mut self, x: u128) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
}

struct Dec<'a>(&'a [u8]);
impl Dec<'_> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    fn w(&mut self) -> u128 {
        let (a, b) = self.0.split_at(16);
        self.0 = b;
        u128::from_le_bytes(a.try_into().unwrap())
    }
}

impl Rec {
    fn encode(&self) -> Vec<u8> {
        let mut e = Enc(Vec::new());
        for x in [
            u64::from(self.task),
            u64::from(self.op),
            u64::from(self.flags),
            self.ticks,
            self.tail,
            self.tail_reqs,
            self.reqs,
            self.refused,
            self.obtained,
            self.peak as u64,
            self.moved,
            u64::from(self.cbs),
            self.live.0 as u64,
            self.live.1 as u64,
            self.at.0,
            self.at.1,
        ] {
            e.u(x);
        }
        e.b(&self.state);
        e.b(&self.debug);
        match &self.out {
            Out::Text(t) => {
                e.u(0);
                e.b(t);
            }
            Out::NoZero => e.u(1),
            Out::Oom(v) => {
                e.u(2);
                e.w(*v);
            }
            Out::Oob(v) => {
                e.u(3);
                e.w(*v);
            }
            Out::UnknownError => e.u(4),
            Out::InjectedPanic(o) => {
                e.u(5);
                e.u(u64::from(*o));
            }
            Out::Panic(m) => {
                e.u(6);
                e.b(m.as_bytes());
            }
            Out::Refused(t) => {
                e.u(7);
                e.b(t);
            }
            Out::Bits(b) => {
                e.u(8);
                e.u(u64::from(*b));
            }
            Out::Shown { ok, panicked, failed, taken, after } => {
                e.u(9);
                e.u(u64::from(*ok));
                e.u(u64::from(*panicked));
                e.u(u64::from(*failed));
                e.b(taken);
                e.u(u64::from(*after));
            }
            Out::Owned(t) => {
                e.u(10);
                e.b(t);
            }
            Out::Back(t) => {
                e.u(11);
                e.b(t);
            }
            Out::Nothing => e.u(12),
            Out::Skipped => e.u(13),
        }
        e.0
    }

    fn decode(d: &mut Dec) -> Rec {
        let mut u = || d.u();
        let (task, op, flags) = (u() as u32, u() as u32, u() as u32);
        let (ticks, tail, tail_reqs, reqs, refused, obtained, peak) = (u(), u(), u(), u(), u(), u(), u() as i64);
        let moved = u();
        let cbs = u() as u32;
        let live = (u() as i64, u() as i64);
        let at = (u(), u());
        let state = d.b();
        let debug = d.b();
        let out = match d.u() {
            0 => Out::Text(d.b()),
            1 => Out::NoZero,
            2 => Out::Oom(d.w()),
            3 => Out::Oob(d.w()),
            4 => Out::UnknownError,
            5 => Out::InjectedPanic(d.u() as u32),
            6 => Out::Panic(String::from_utf8_lossy(&d.b()).into_owned()),
            7 => Out::Refused(d.b()),
            8 => Out::Bits(d.u() as u32),
            9 => Out::Shown {
                ok: d.u() == 1,
                panicked: d.u() == 1,
                failed: d.u() == 1,
                taken: d.b(),
                after: d.u() as u32,
            },
            10 => Out::Owned(d.b()),
            11 => Out::Back(d.b()),
            12 => Out::Nothing,
            _ => Out::Skipped,
        };
        Rec { task, op, out, flags, ticks, tail, tail_reqs, reqs, refused, obtained, peak, moved, cbs, live, state, debug, at }
    }
}

/// What became of the run as a whole.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum End {
    Done,
    /// Stopped by the simulator: (message, task, operation).
    Fatal(String, u32, u32),
    /// The process died or stalled: (signal or exit code, task, operation).
    Crash(String, u32, u32),
}

#[derive(Clone, Debug)]
pub struct Run {
    pub end: End,
    pub recs: Vec<Rec>,
    pub switches: Vec<simcore::Switch>,
    pub digest: u64,
    /// Processor time (the only thing here that isn't repeatable).
    pub cpu_ms: u64,
}

pub fn encode_run(r: &Run) -> Vec<u8> {
    let mut e = Enc(Vec::new());
    match &r.end {
        End::Done => e.u(0),
        End::Fatal(m, t, o) => {
            e.u(1);
            e.b(m.as_bytes());
            e.u(u64::from(*t));
            e.u(u64::from(*o));
        }
        End::Crash(m, t, o) => {
            e.u(2);
            e.b(m.as_bytes());
            e.u(u64::from(*t));
            e.u(u64::from(*o));
        }
    }
    e.u(r.recs.len() as u64);
    for x in &r.recs {
        e.0.extend(x.encode());
    }
    e.0
}

pub fn decode_run(b: &[u8]) -> Run {
    let mut d = Dec(b);
    let end = match d.u() {
        0 => End::Done,
        k => {
            let m = String::from_utf8_lossy(&d.b()).into_owned();
            let (t, o) = (d.u() as u32, d.u() as u32);
            if k == 1 {
                End::Fatal(m, t, o)
            } else {
                End::Crash(m, t, o)
            }
        }
    };
    let n = d.u();
    let recs = (0..n).map(|_| Rec::decode(&mut d)).collect();
    Run { end, recs, switches: vec![], digest: 0, cpu_ms: 0 }
}

// ------------------------------------------------------------ child side

static mut SYSTEMS: Vec<&'static dyn AnySys> = Vec::new();
static mut NESTED_CALL: [Option<Call>; simcore::MAX_TASK] = [None; simcore::MAX_TASK];
static mut GROWTH: [Option<(usize, usize)>; simcore::MAX_TASK] = [None; simcore::MAX_TASK];

fn sys(i: usize) -> &'static dyn AnySys {
    #[allow(static_mut_refs)]
    unsafe {
        SYSTEMS[i]
    }
}

fn me() -> usize {
    cur().task as usize
}

fn build(s: &Spec) -> &'static dyn AnySys {
    Box::leak(simcore::in_pool(|| match s {
        Spec::Named(n) => sut::named(n),
        Spec::Zh(z) => sut::chinese(*z),
        Spec::Dig(d) => sut::sim_digits(d),
    }))
}

fn reenter() {
    let call = unsafe { NESTED_CALL[me()] };
    let id = cur().f.op;
    if id & NESTED != 0 {
        return;
    }
    if let Some(call) = call {
        let out = run_call(&call, id | NESTED, Refuse::None, CbFault::None);
        if let Some(s) = out.1 {
            sut::s_drop(s);
        }
        push(&out.0);
    }
}

fn grow() {
    if let Some((coll, by)) = unsafe { GROWTH[me()] } {
        grow_by(coll, by);
    }
}

fn grow_by(coll: usize, by: usize) {
    unsafe {
        sut::LENS[coll] = sut::LENS[coll].saturating_add(by);
    }
}

fn push(r: &Rec) {
    rec_push(&r.encode());
}

fn blank() -> Rec {
    Rec {
        task: cur().task,
        op: cur().f.op,
        out: Out::Nothing,
        flags: 0,
        ticks: 0,
        tail: 0,
        tail_reqs: 0,
        reqs: 0,
        refused: 0,
        obtained: 0,
        peak: 0,
        moved: 0,
        cbs: 0,
        live: (simcore::audit().0, 0),
        state: vec![],
        debug: vec![],
        at: (shm().ticks, 0),
    }
}

fn close(r: &mut Rec) {
    let f = &cur().f;
    r.ticks = f.ticks;
    r.tail = if f.refused_at > 0 || f.refused > 0 { f.ticks - f.refused_at } else { 0 };
    if f.refused > 0 && f.refused_at == 0 {
        r.tail = 0;
    }
    r.tail_reqs = f.refused_since;
    r.reqs = f.reqs;
    r.refused = f.refused;
    r.obtained = f.obtained;
    r.peak = f.peak;
    r.moved = f.moved;
    r.cbs = f.cbs;
    r.at.1 = shm().ticks;
}

fn run_call(call: &Call, id: u32, refuse: Refuse, fault: CbFault) -> (Rec, Option<NominalString>) {
    begin_op(id, refuse, fault);
    let mut r = blank();
    let got = sys(call.sys).fmt(call.ty, call.v, call.mode, call.wrap);
    close(&mut r);
    let mut kept = None;
    r.out = match got {
        Ok(Ok(s)) => {
            let t = s.as_bytes().to_vec();
            r.flags = u32::from(s.is_inline()) | 4 | if std::str::from_utf8(&t).is_ok() { 2 } else { 0 };
            kept = Some(s);
            Out::Text(t)
        }
        Ok(Err(Failed::NoZeroSymbol)) => Out::NoZero,
        Ok(Err(Failed::OutOfMemory(n))) => Out::Oom(n),
        Ok(Err(Failed::OutOfBounds(n))) => Out::Oob(n),
        Ok(Err(Failed::Unknown)) => Out::UnknownError,
        Err(p) => panicked(&*p),
    };
    if kept.is_none() {
        r.live.1 = simcore::audit().0;
    }
    (r, kept)
}

fn panicked(p: &(dyn std::any::Any + Send)) -> Out {
    match p.downcast_ref::<SimPanic>() {
        Some(SimPanic(op)) => Out::InjectedPanic(*op),
        None => Out::Panic(simcore::last_panic()),
    }
}

/// The output sink: it is the caller's, so everything in it is outside.
struct FaultySink {
    mode: Sink,
    calls: u32,
    taken: Vec<u8>,
    failed: bool,
    after: u32,
}

impl FaultySink {
    fn new(mode: Sink) -> FaultySink {
        FaultySink { mode, calls: 0, taken: vec![], failed: false, after: 0 }
    }

    fn take(&mut self, s: &str) -> std::fmt::Result {
        let k = self.calls;
        self.calls += 1;
        if self.failed {
            self.after += 1;
        }
        match self.mode {
            Sink::FailCall(n) if k >= n => {
                shm().sink_faults += 1;
                self.failed = true;
                return Err(std::fmt::Error);
            }
            Sink::Once(n) if k == n => {
                shm().sink_faults += 1;
                self.failed = true;
                return Err(std::fmt::Error);
            }
            Sink::FailByte(n) if self.taken.len() + s.len() > n as usize => {
                shm().sink_faults += 1;
                let room = (n as usize).saturating_sub(self.taken.len());
                self.taken.extend_from_slice(&s.as_bytes()[..room.min(s.len())]);
                self.failed = true;
                return Err(std::fmt::Error);
            }
            Sink::Panic(n) if k == n => {
                shm().sink_faults += 1;
                std::panic::panic_any(SimPanic(cur().f.op));
            }
            Sink::Reenter(n) if k == n => {
                shm().cb_reenters += 1;
                let (f, next) = (cur().f, cur().next);
                reenter();
                let wrong = show_others();
                cur().f = f;
                cur().next = next;
                if wrong {
                    self.taken.extend_from_slice(b"<another string displayed meanwhile came out wrong>");
                }
            }
            _ => {}
        }
        self.taken.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// Displays other strings while an output is being written to: does any of
/// them come out wrong?
fn show_others() -> bool {
    let id = cur().f.op | NESTED;
    let n = 63 + (id as usize).wrapping_mul(37) % 190;
    let long = "Nummer ".repeat(n / 7 + 1);
    let texts: &[&str] = if cfg!(feature = "heap") { &["ab3é", &long[..n]] } else { &["ab3é"] };
    let forms = [(0, 0), (1, 4 + n / 2), (6, 1 + n / 3)];
    texts.iter().any(|t| {
        begin_op(id, Refuse::None, CbFault::None);
        let mut s = sut::s_new(0);
        // There may be no memory left for it.
        let made = sut::s_push_str(&mut s, t).is_ok();
        let wrong = made && forms.iter().any(|&(form, x)| {
            let mut k = FaultySink::new(Sink::Ok);
            let got = sut::show(&s, form, x, x, &mut k);
            let mut want = String::new();
            let _ = sut::show_str(t, form, x, x, &mut want);
            !matches!(got, Ok(Ok(()))) || k.taken != want.as_bytes()
        });
        sut::s_drop(s);
        wrong
    })
}

impl std::fmt::Write for FaultySink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        simcore::call_out();
        simcore::outside(|| self.take(s))
    }
}

fn observe(r: &mut Rec, s: Option<&NominalString>) {
    if let Some(s) = s {
        r.state = s.as_bytes().to_vec();
        r.flags = 4
            | u32::from(s.is_inline())
            | if std::str::from_utf8(&r.state).is_ok() { 2 } else { 0 };
    }
}

fn step(op: &Op, slots: &mut [Option<NominalString>; SLOTS]) {
    unsafe {
        NESTED_CALL[me()] = op.nested;
        GROWTH[me()] = op.grow;
    }
    if let Kind::Fmt { call, slot } = &op.kind {
        let mut first: Option<Rec> = None;
        let mut slower: Option<Rec> = None;
        for i in 0..op.rep {
            let (mut r, s) = run_call(call, op.id, op.refuse, op.fault);
            match slot {
                Some(k) if i + 1 == op.rep => {
                    let old = std::mem::replace(&mut slots[*k], s);
                    if let Some(s) = old {
                        sut::s_drop(s);
                    }
                }
                _ => {
                    if let Some(s) = s {
                        sut::s_drop(s);
                    }
                    r.live.1 = simcore::audit().0;
                }
            }
            match &first {
                None => {
                    push(&r);
                    first = Some(r);
                }
                Some(f) if f.out != r.out || f.refused != r.refused => {
                    r.op |= REPEAT;
                    r.cbs = i;
                    push(&r);
                    slower = None;
                    break;
                }
                Some(f) if r.ticks > slower.as_ref().map_or(2 * f.ticks + 1000, |s| s.ticks) => {
                    r.op |= REPEAT;
                    r.flags |= SLOWER;
                    slower = Some(r);
                }
                Some(_) => {}
            }
        }
        // The one that took the longest, if it took much longer.
        if let Some(r) = slower {
            push(&r);
        }
        return;
    }
    begin_op(op.id, op.refuse, op.fault);
    let mut r = blank();
    let mut touched = None;
    macro_rules! slot {
        ($i:expr) => {
            match slots[*$i].as_mut() {
                Some(s) => s,
                None => {
                    r.out = Out::Skipped;
                    close(&mut r);
                    push(&r);
                    return;
                }
            }
        };
    }
    macro_rules! put {
        ($i:expr, $s:expr) => {{
            let s = $s;
            close(&mut r);
            let old = slots[*$i].replace(s);
            if let Some(s) = old {
                sut::s_drop(s);
            }
            touched = Some(*$i);
        }};
    }
    match &op.kind {
        Kind::Fmt { .. } => unreachable!(),
        Kind::New { slot, how } => put!(slot, sut::s_new(*how)),
        Kind::FromStr { slot, text } => {
            let t = text.make();
            put!(slot, sut::s_from_str(&t))
        }
        Kind::FromChar { slot, c } => put!(slot, sut::s_from_char(*c)),
        #[cfg(feature = "heap")]
        Kind::FromString { slot, text, by_ref } => {
            let t = text.make();
            if *by_ref {
                put!(slot, sut::s_from_string_ref(&t))
            } else {
                let t = simcore::on_ledger(|| t.clone());
                put!(slot, sut::s_from_string(t))
            }
        }
        #[cfg(not(feature = "heap"))]
        Kind::FromString { slot, text, .. } => {
            let t = text.make();
            put!(slot, sut::s_from_str(&t))
        }
        Kind::Push { slot, c } => {
            let s = slot!(slot);
            if sut::s_push(s, *c).is_err() {
                r.out = Out::Refused(vec![]);
            }
            touched = Some(*slot);
        }
        Kind::PushStr { slot, text } => {
            let t = text.make();
            let s = slot!(slot);
            if sut::s_push_str(s, &t).is_err() {
                r.out = Out::Refused(vec![]);
            }
            touched = Some(*slot);
        }
        Kind::PushSlot { slot, from } => {
            let t = slot!(from).to_string();
            let s = slot!(slot);
            if sut::s_push_str(s, &t).is_err() {
                r.out = Out::Refused(vec![]);
            }
            touched = Some(*slot);
        }
        Kind::PushFront { slot, c } => {
            let s = slot!(slot);
            if sut::s_push_front(s, *c).is_err() {
                r.out = Out::Refused(vec![]);
            }
            touched = Some(*slot);
        }
        Kind::Case { slot, upper } => {
            sut::s_case(slot!(slot), *upper);
            touched = Some(*slot);
        }
        #[cfg(feature = "heap")]
        Kind::Clone { slot, from, reuse } => {
            let src: *const NominalString = slot!(from);
            let src = unsafe { &*src };
            if *reuse && slot != from && slots[*slot].is_some() {
                sut::s_clone_from(slots[*slot].as_mut().unwrap(), src);
                touched = Some(*slot);
            } else {
                put!(slot, sut::s_clone(src))
            }
        }
        #[cfg(not(feature = "heap"))]
        Kind::Clone { .. } => r.out = Out::Skipped,
        Kind::Rebuild { slot, from, how } => {
            let t = altered(slot!(from), *how / ROUTES);
            let route = *how % ROUTES;
            let mut s = sut::s_new(u8::from(!matches!(route, 1 | 4)));
            let ok = match route {
                2 if t.len() <= 62 => {
                    s = sut::s_from_str(&t);
                    true
                }
                0 | 4 => t.chars().rev().all(|c| sut::s_push_front(&mut s, c).is_ok()),
                1 => t.chars().all(|c| sut::s_push(&mut s, c).is_ok()),
                5 => {
                    let (mut mid, end) = (t.len() / 2, t.len());
                    while !t.is_char_boundary(mid) {
                        mid += 1;
                    }
                    t[..mid].chars().rev().all(|c| sut::s_push_front(&mut s, c).is_ok())
                        && sut::s_push_str(&mut s, &t[mid..end]).is_ok()
                }
                _ => sut::s_push_str(&mut s, &t).is_ok(),
            };
            if ok {
                put!(slot, s);
            } else {
                r.out = Out::Refused(vec![]);
                close(&mut r);
                sut::s_drop(s);
                if let Some(s) = slots[*slot].take() {
                    sut::s_drop(s);
                }
            }
        }
        Kind::Compare { slot, with } => {
            let a: *const NominalString = slot!(slot);
            let b: *const NominalString = slot!(with);
            r.out = Out::Bits(unsafe { sut::s_compare(&*a, &*b) });
            touched = Some(*slot);
        }
        #[cfg(feature = "heap")]
        Kind::CompareText { slot, text } => {
            let t = text.make();
            r.out = Out::Bits(sut::s_compare_string(slot!(slot), &t));
            touched = Some(*slot);
        }
        #[cfg(not(feature = "heap"))]
        Kind::CompareText { .. } => r.out = Out::Skipped,
        #[cfg(feature = "heap")]
        Kind::IntoString { slot } => {
            slot!(slot);
            let s = slots[*slot].take().unwrap();
            let o = sut::s_into_string(s);
            close(&mut r);
            r.out = Out::Owned(o.as_bytes().to_vec());
            drop(o);
            push(&r);
            return;
        }
        #[cfg(feature = "heap")]
        Kind::TryIntoString { slot } => {
            slot!(slot);
            let s = slots[*slot].take().unwrap();
            match sut::s_try_into_string(s) {
                Ok(o) => {
                    close(&mut r);
                    r.out = Out::Owned(o.as_bytes().to_vec());
                    drop(o);
                }
                Err(s) => {
                    close(&mut r);
                    r.out = Out::Back(s.as_bytes().to_vec());
                    slots[*slot] = Some(s);
                    touched = Some(*slot);
                }
            }
            observe(&mut r, touched.and_then(|i: usize| slots[i].as_ref()));
            push(&r);
            return;
        }
        #[cfg(not(feature = "heap"))]
        Kind::IntoString { .. } | Kind::TryIntoString { .. } => r.out = Out::Skipped,
        Kind::Debug { slot } => {
            let s: *const NominalString = slot!(slot);
            let mut k = FaultySink::new(Sink::Ok);
            let s = unsafe { &*s };
            let _ = sut::debug(s, &mut k);
            r.debug = k.taken;
            // The same text in a string that was never anything else.
            let same = if s.is_inline() {
                let ordinary = NominalString::from(&**s);
                format!("{ordinary:?}").as_bytes() == r.debug
            } else {
                true
            };
            r.out = Out::Bits(u32::from(same));
            touched = Some(*slot);
        }
        Kind::Show { slot, form, w, p, sink } => {
            let s: *const NominalString = slot!(slot);
            let s = unsafe { &*s };
            let mut first: Option<Out> = None;
            for i in 0..op.rep {
                if i > 0 {
                    begin_op(op.id, op.refuse, op.fault);
                    r = blank();
                }
                let mut k = FaultySink::new(*sink);
                let got = sut::show(s, *form, *w as usize, *p as usize, &mut k);
                close(&mut r);
                r.out = match got {
                    Ok(x) => Out::Shown { ok: x.is_ok(), panicked: false, failed: k.failed, taken: k.taken, after: k.after },
                    Err(p) => match panicked(&*p) {
                        Out::InjectedPanic(o) if o == op.id => {
                            Out::Shown { ok: false, panicked: true, failed: k.failed, taken: k.taken, after: k.after }
                        }
                        x => x,
                    },
                };
                match &first {
                    Some(f) if *f != r.out => {
                        r.op |= REPEAT;
                        r.cbs = i;
                    }
                    Some(_) => continue,
                    None => first = Some(r.out.clone()),
                }
                if *form >= sut::FORMS {
                    // What it writes when nothing fails.
                    let mut k = FaultySink::new(Sink::Ok);
                    let _ = sut::show(s, *form, *w as usize, *p as usize, &mut k);
                    r.debug = k.taken;
                }
                observe(&mut r, Some(s));
                push(&r);
                if r.op & REPEAT != 0 {
                    break;
                }
            }
            return;
        }
        Kind::Drop { slot } => {
            slot!(slot);
            sut::s_drop(slots[*slot].take().unwrap());
        }
        Kind::Grow { coll, by } => {
            simcore::shm().grow += 1;
            grow_by(*coll, *by);
        }
    }
    if r.at.1 == 0 {
        close(&mut r);
    }
    observe(&mut r, touched.and_then(|i| slots[i].as_ref()));
    push(&r);
}

fn task(ops: &[Op]) {
    let mut slots: [Option<NominalString>; SLOTS] = [const { None }; SLOTS];
    for op in ops {
        // A library panic outside a formatting call is caught here.
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(op, &mut slots)));
        if let Err(p) = r {
            let c = cur();
            c.in_sut = false;
            c.ledger = false;
            c.unwinding = false;
            let mut r = blank();
            close(&mut r);
            r.out = panicked(&*p);
            push(&r);
        }
        boundary();
    }
    for s in slots.iter_mut() {
        if let Some(s) = s.take() {
            begin_op(simcore::OP_END - 1, Refuse::None, CbFault::None);
            cur().next = u64::MAX;
            sut::s_drop(s);
        }
    }
}

fn child(p: &Plan) -> ! {
    simcore::install_panic_hook();
    unsafe {
        simcore::CEILING = p.ceiling;
        simcore::REENTER = Some(reenter);
        simcore::GROW = Some(grow);
        // Processor time, whatever else the machine does.
        let most = p.tasks.iter().flatten().map(|o| o.rep).max().unwrap_or(1);
        let seconds = if p.ceiling > 64 << 10 || most > 100_000 { 20 } else { 5 };
        c::setitimer(2, &[0, 0, seconds, 0], core::ptr::null_mut());
        #[allow(static_mut_refs)]
        {
            SYSTEMS = p.sys.iter().map(build).collect();
        }
        sut::LENS[sut::FB_GROW] = sut::FB_GROW_LEN;
        for s in &p.sys {
            if let Spec::Dig(d) = s {
                sut::LENS[d.id] = d.len;
                sut::LENS[d.id2] = d.len2;
            }
        }
    }
    let sched = match &p.schedule {
        Schedule::Random { seed, strategy, kills, kill_p, killable } => Sched {
            rng: simcore::Rng::new(*seed),
            strategy: strategy.clone(),
            explicit: None,
            kill_p: *kill_p,
            kills_left: *kills,
            fair: p.fair,
            limit: p.limit,
            resume: None,
            killable: *killable,
        },
        Schedule::Explicit(x) => Sched {
            rng: simcore::Rng::new(0),
            strategy: simcore::Strategy::Boundary,
            explicit: Some(x.clone()),
            kill_p: 0,
            kills_left: 0,
            fair: p.fair,
            limit: p.limit,
            resume: None,
            killable: 0,
        },
    };
    let bodies: Vec<Box<dyn FnOnce() + Send>> = p
        .tasks
        .iter()
        .map(|t| {
            let t = t.clone();
            Box::new(move || task(&t)) as Box<dyn FnOnce() + Send>
        })
        .collect();
    simcore::run_tasks(sched, bodies);
    if let Some(m) = simcore::audit_deep() {
        fatal(m);
    }
    let killed = shm().kills > 0;
    let (blocks, bytes, _) = simcore::audit();
    if !killed && blocks != 0 {
        fatal(&format!("ledger: {blocks} blocks ({bytes} bytes) are left at the end"));
    }
    shm().stop = simcore::Stop::Done as u32;
    unsafe { c::_exit(0) }
}

// ------------------------------------------------------------ parent side

fn verbose() -> bool {
    std::env::var_os("NOMSIM_DEBUG").is_some()
}

extern "C" fn wake(_: i32) {}

/// Makes `wait4` return now and then.
pub fn install_timer() {
    unsafe {
        c::signal(14, wake as extern "C" fn(i32) as usize);
        c::siginterrupt(14, 1);
        c::setitimer(0, &[0, 400_000, 0, 400_000], core::ptr::null_mut());
    }
}

/// Looks for a run in which every caller sleeps (a lock of the operating
/// system that nobody will release).  A run that only waits for a processor is
/// not one.
#[derive(Default)]
struct Watch {
    last: (u64, u64),
    times: u32,
    looks: u32,
}

impl Watch {
    fn stuck(&mut self, pid: i32) -> bool {
        self.looks += 1;
        let mut switches = 0;
        let mut asleep = true;
        match std::fs::read_dir(format!("/proc/{pid}/task")) {
            Ok(tasks) => {
                for t in tasks.flatten() {
                    let text = std::fs::read_to_string(t.path().join("status")).unwrap_or_default();
                    for l in text.lines() {
                        if let Some(s) = l.strip_prefix("State:") {
                            asleep &= s.trim_start().starts_with('S');
                        }
                        if l.contains("ctxt_switches:") {
                            switches += l.split_whitespace().last().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                        }
                    }
                    asleep &= !text.is_empty();
                }
            }
            Err(_) => asleep = false,
        }
        let now = (shm().ticks, switches);
        if asleep && now == self.last {
            self.times += 1;
        } else {
            self.times = 0;
        }
        self.last = now;
        self.times >= 2 || self.looks > 300
    }
}

pub fn run(p: &Plan) -> Run {
    simcore::shm_reset();
    let pid = unsafe { c::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            c::prctl(1, 9); // die with the parent
            if !verbose() {
                let fd = c::open(c"/dev/null".as_ptr(), 1);
                c::dup2(fd, 2);
            }
        }
        child(p);
    }
    let mut st = 0;
    let mut used = [0i64; 18];
    let mut watch = Watch::default();
    let mut stuck = false;
    while unsafe { c::wait4(pid, &mut st, 0, &mut used) } != pid {
        // Woken by the timer.
        if !stuck && watch.stuck(pid) {
            stuck = true;
            unsafe { c::kill(pid, 9) };
        }
    }
    let s = shm();
    let (t, o) = (s.cur_task, s.cur_op);
    let end = if s.stop == simcore::Stop::Done as u32 {
        End::Done
    } else if s.stop == simcore::Stop::Fatal as u32 {
        let m = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned();
        End::Fatal(m, t, o)
    } else if st & 0x7f == 27 || stuck {
        End::Crash("stalled".into(), t, o)
    } else if st & 0x7f != 0 {
        End::Crash(format!("signal {}", st & 0x7f), t, o)
    } else {
        End::Crash(format!("exit {}", st >> 8 & 0xff), t, o)
    };
    let mut d = Dec(simcore::recs());
    let mut recs = Vec::new();
    while !d.0.is_empty() {
        recs.push(Rec::decode(&mut d));
    }
    let switches = s.switches[..(s.n_switch as usize).min(s.switches.len())].to_vec();
    let mut digest = simcore::rng::mix(s.ticks);
    for b in simcore::recs().chunks(8) {
        let mut x = [0; 8];
        x[..b.len()].copy_from_slice(b);
        digest = simcore::rng::mix(digest ^ u64::from_le_bytes(x));
    }
    for w in &switches {
        digest = simcore::rng::mix(digest ^ u64::from(w.task) ^ (u64::from(w.op) << 8) ^ (w.tick << 20) ^ (u64::from(w.to) << 50));
    }
    if let End::Fatal(m, ..) | End::Crash(m, ..) = &end {
        for b in m.bytes() {
            digest = simcore::rng::mix(digest ^ u64::from(b));
        }
    }
    let cpu_ms = ((used[0] + used[2]) * 1000 + (used[1] + used[3]) / 1000) as u64;
    Run { end, recs, switches, digest, cpu_ms }
}
