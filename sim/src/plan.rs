//! What a run does, as data: it can be printed, read back, and shrunk.

use simcore::{CbFault, Refuse, Strategy, Switch};
use sut::{DigSpec, Mode, Ty, Wrap, Zh};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Spec {
    Named(&'static str),
    Zh(Zh),
    Dig(DigSpec),
}

/// Characters at the edges of something: of a width, of what is printable, of
/// what is quoted, of what combines.
const ODD: [char; 32] = [
    '\0', '\t', '\n', '\r', '\x1b', ' ', '"', '\'', '\\', '{', '}', '0', '9', 'A', 'Z', 'a', 'z', '~', '\u{7F}', '\u{80}',
    '\u{A0}', '\u{300}', '\u{305}', '\u{7FF}', '\u{800}', '\u{200D}', '\u{FEFF}', '\u{D7FF}', '\u{E000}', '\u{FFFF}',
    '\u{10000}', '\u{10FFFF}',
];

/// A text described by its class (0 ASCII, 1..3 wider characters, 4 mixed, 5
/// odd ones, 6 one sign only) and
/// its exact length in bytes where the class allows it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Text {
    pub class: u8,
    pub seed: u32,
    pub len: u32,
}

impl Text {
    pub fn make(self) -> String {
        let mut s = String::new();
        let n = self.len as usize;
        let mut i = self.seed;
        if self.class == 6 {
            i %= 5;
        }
        while s.len() < n {
            let class = match self.class {
                6 => i as u8,
                _ => {
                    i = i.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
                    if self.class == 4 { (i >> 14) as u8 % 4 } else { self.class }
                }
            };
            let k = i >> 8;
            let c = match class {
                0 => char::from(b'a' + (k % 26) as u8),
                1 => char::from_u32(0x3B1 + k % 20).unwrap(),
                2 => char::from_u32(0x4E00 + k % 500).unwrap(),
                5 => ODD[k as usize % ODD.len()],
                _ => char::from_u32(0x1F300 + k % 200).unwrap(),
            };
            if s.len() + c.len_utf8() > n {
                // Fill up with ASCII to the exact length.
                s.push(if self.class == 0 { c } else { 'z' });
            } else {
                s.push(c);
            }
        }
        s
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Call {
    pub sys: usize,
    pub ty: Ty,
    pub v: u128,
    pub mode: Mode,
    pub wrap: Wrap,
}

/// The ways `Rebuild` builds a string, and the ways it alters the text.
pub const ROUTES: u8 = 6;
pub const ALTERED: u8 = 8;

pub fn altered(t: &str, how: u8) -> String {
    let mut c: Vec<char> = t.chars().collect();
    let n = c.len();
    let swap = |x: char| if x == 'z' { 'y' } else { 'z' };
    match how {
        1 => {
            c.pop();
        }
        2 => c.push('a'),
        3 if n > 0 => c[n - 1] = swap(c[n - 1]),
        4 if n > 0 => c[0] = swap(c[0]),
        5 if n > 0 => c[n / 2] = swap(c[n / 2]),
        6 => c.insert(0, 'a'),
        7 if n > 0 => {
            c.remove(0);
        }
        _ => {}
    }
    c.into_iter().collect()
}

/// What the output sink does to the writer.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sink {
    Ok,
    /// Fails at the k-th write.
    FailCall(u32),
    /// Takes n bytes, then fails in the middle of the write.
    FailByte(u32),
    /// Fails once at the k-th write, and takes everything else.
    Once(u32),
    /// Formats something else at the k-th write.
    Reenter(u32),
    /// Panics at the k-th write.
    Panic(u32),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Fmt { call: Call, slot: Option<usize> },
    New { slot: usize, how: u8 },
    FromStr { slot: usize, text: Text },
    FromChar { slot: usize, c: char },
    FromString { slot: usize, text: Text, by_ref: bool },
    Push { slot: usize, c: char },
    PushStr { slot: usize, text: Text },
    PushSlot { slot: usize, from: usize },
    PushFront { slot: usize, c: char },
    Case { slot: usize, upper: bool },
    Clone { slot: usize, from: usize, reuse: bool },
    Compare { slot: usize, with: usize },
    /// Another string of (nearly) the same text, built another way.
    Rebuild { slot: usize, from: usize, how: u8 },
    CompareText { slot: usize, text: Text },
    IntoString { slot: usize },
    TryIntoString { slot: usize },
    Debug { slot: usize },
    Show { slot: usize, form: u32, w: u32, p: u32, sink: Sink },
    Drop { slot: usize },
    Grow { coll: usize, by: usize },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Op {
    pub id: u32,
    pub rep: u32,
    pub kind: Kind,
    pub refuse: Refuse,
    pub fault: CbFault,
    pub nested: Option<Call>,
    pub grow: Option<(usize, usize)>,
}

impl Kind {
    /// The strings it concerns.
    pub fn slots(&mut self) -> Vec<&mut usize> {
        match self {
            Kind::Fmt { slot, .. } => slot.iter_mut().collect(),
            Kind::New { slot, .. }
            | Kind::FromStr { slot, .. }
            | Kind::FromChar { slot, .. }
            | Kind::FromString { slot, .. }
            | Kind::Push { slot, .. }
            | Kind::PushStr { slot, .. }
            | Kind::PushFront { slot, .. }
            | Kind::Case { slot, .. }
            | Kind::CompareText { slot, .. }
            | Kind::IntoString { slot }
            | Kind::TryIntoString { slot }
            | Kind::Debug { slot }
            | Kind::Show { slot, .. }
            | Kind::Drop { slot } => vec![slot],
            Kind::PushSlot { slot, from }
            | Kind::Clone { slot, from, .. }
            | Kind::Rebuild { slot, from, .. }
            | Kind::Compare { slot, with: from } => {
                vec![slot, from]
            }
            Kind::Grow { .. } => vec![],
        }
    }
}

impl Op {
    pub fn new(id: u32, kind: Kind) -> Self {
        Op {
            id,
            rep: 1,
            kind,
            refuse: Refuse::None,
            fault: CbFault::None,
            nested: None,
            grow: None,
        }
    }
    pub fn call(&self) -> Option<&Call> {
        match &self.kind {
            Kind::Fmt { call, .. } => Some(call),
            _ => None,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Schedule {
    Random { seed: u64, strategy: Strategy, kills: u32, kill_p: u32, killable: u32 },
    Explicit(Vec<Switch>),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub heap: bool,
    pub seed: u64,
    pub ceiling: i64,
    pub fair: u64,
    pub limit: u64,
    pub sys: Vec<Spec>,
    pub tasks: Vec<Vec<Op>>,
    pub schedule: Schedule,
}

pub const SLOTS: usize = 6;
pub const NESTED: u32 = 1 << 30;
pub const REPEAT: u32 = 1 << 29;
/// In a record's flags: a repeat with the same result that took much longer.
pub const SLOWER: u32 = 1 << 8;

// ------------------------------------------------------------ to text

fn opt<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").to_lowercase()
}

impl Spec {
    pub fn text(&self) -> String {
        match self {
            Spec::Named(n) => (*n).to_string(),
            Spec::Zh(z) => format!(
                "zh:{}:{}:{}:{}",
                u8::from(z.traditional),
                u8::from(z.formal),
                u8::from(z.financial),
                z.scale
            ),
            Spec::Dig(d) => format!(
                "dig:{}:{}:id={}:id2={}:len={}:len2={}:limit={}:zero={}:zb={}:fixed={}:first={}",
                opt(&d.shape),
                opt(&d.fb),
                d.id,
                d.id2,
                d.len,
                d.len2,
                d.limit,
                u8::from(d.has_zero),
                u8::from(d.zero_based),
                u8::from(d.fixed),
                d.first
            ),
        }
    }

    pub fn parse(s: &str) -> Spec {
        if let Some(r) = s.strip_prefix("zh:") {
            let f: Vec<u8> = r.split(':').map(|x| x.parse().unwrap()).collect();
            return Spec::Zh(Zh {
                traditional: f[0] == 1,
                formal: f[1] == 1,
                financial: f[2] == 1,
                scale: f[3],
            });
        }
        if let Some(r) = s.strip_prefix("dig:") {
            let f: Vec<&str> = r.split(':').collect();
            let get = |i: usize| f[i].split_once('=').unwrap().1.parse::<u64>().unwrap();
            return Spec::Dig(DigSpec {
                shape: *sut::SHAPES.iter().find(|x| opt(*x) == f[0]).unwrap(),
                fb: *sut::FBS.iter().find(|x| opt(*x) == f[1]).unwrap(),
                id: get(2) as usize,
                id2: get(3) as usize,
                len: get(4) as usize,
                len2: get(5) as usize,
                limit: get(6) as usize,
                has_zero: get(7) == 1,
                zero_based: get(8) == 1,
                fixed: get(9) == 1,
                first: get(10) as u32,
            });
        }
        Spec::Named(sut::NAMED.iter().find(|n| **n == s).unwrap_or_else(|| panic!("system {s}?")))
    }
}

fn text_text(t: &Text) -> String {
    format!("{}/{}/{}", t.class, t.seed, t.len)
}

fn parse_text(s: &str) -> Text {
    let f: Vec<u32> = s.split('/').map(|x| x.parse().unwrap()).collect();
    Text { class: f[0] as u8, seed: f[1], len: f[2] }
}

fn call_text(c: &Call) -> String {
    format!("{}/{}/{}/{}/{}", c.sys, opt(&c.ty), c.v, opt(&c.mode), opt(&c.wrap))
}

fn parse_call(s: &str) -> Call {
    let f: Vec<&str> = s.split('/').collect();
    Call {
        sys: f[0].parse().unwrap(),
        ty: *sut::TYS.iter().find(|x| opt(*x) == f[1]).unwrap(),
        v: f[2].parse().unwrap(),
        mode: *sut::MODES.iter().find(|x| opt(*x) == f[3]).unwrap(),
        wrap: *sut::WRAPS.iter().find(|x| opt(*x) == f[4]).unwrap(),
    }
}

fn sink_text(s: &Sink) -> String {
    match s {
        Sink::Ok => "ok".into(),
        Sink::FailCall(k) => format!("failcall/{k}"),
        Sink::FailByte(k) => format!("failbyte/{k}"),
        Sink::Once(k) => format!("once/{k}"),
        Sink::Reenter(k) => format!("reenter/{k}"),
        Sink::Panic(k) => format!("panic/{k}"),
    }
}

fn parse_sink(s: &str) -> Sink {
    let Some((a, b)) = s.split_once('/') else { return Sink::Ok };
    let k = b.parse().unwrap();
    match a {
        "failcall" => Sink::FailCall(k),
        "failbyte" => Sink::FailByte(k),
        "once" => Sink::Once(k),
        "reenter" => Sink::Reenter(k),
        _ => Sink::Panic(k),
    }
}

impl Op {
    pub fn text(&self) -> String {
        let k = match &self.kind {
            Kind::Fmt { call, slot } => {
                let s = slot.map_or(String::new(), |s| format!(" slot={s}"));
                format!("fmt call={}{s}", call_text(call))
            }
            Kind::New { slot, how } => format!("new slot={slot} how={how}"),
            Kind::FromStr { slot, text } => format!("fromstr slot={slot} text={}", text_text(text)),
            Kind::FromChar { slot, c } => format!("fromchar slot={slot} c={}", *c as u32),
            Kind::FromString { slot, text, by_ref } => {
                format!("fromstring slot={slot} text={} ref={}", text_text(text), u8::from(*by_ref))
            }
            Kind::Push { slot, c } => format!("push slot={slot} c={}", *c as u32),
            Kind::PushStr { slot, text } => format!("pushstr slot={slot} text={}", text_text(text)),
            Kind::PushSlot { slot, from } => format!("pushslot slot={slot} from={from}"),
            Kind::PushFront { slot, c } => format!("pushfront slot={slot} c={}", *c as u32),
            Kind::Case { slot, upper } => format!("case slot={slot} upper={}", u8::from(*upper)),
            Kind::Clone { slot, from, reuse } => {
                format!("clone slot={slot} from={from} reuse={}", u8::from(*reuse))
            }
            Kind::Rebuild { slot, from, how } => format!("rebuild slot={slot} from={from} how={how}"),
            Kind::Compare { slot, with } => format!("compare slot={slot} with={with}"),
            Kind::CompareText { slot, text } => {
                format!("comparetext slot={slot} text={}", text_text(text))
            }
            Kind::IntoString { slot } => format!("intostring slot={slot}"),
            Kind::TryIntoString { slot } => format!("tryintostring slot={slot}"),
            Kind::Debug { slot } => format!("debug slot={slot}"),
            Kind::Show { slot, form, w, p, sink } => {
                format!("show slot={slot} form={form} w={w} p={p} sink={}", sink_text(sink))
            }
            Kind::Drop { slot } => format!("drop slot={slot}"),
            Kind::Grow { coll, by } => format!("grow coll={coll} by={by}"),
        };
        let mut s = format!("op {} {k}", self.id);
        if self.rep != 1 {
            s += &format!(" rep={}", self.rep);
        }
        match self.refuse {
            Refuse::None => {}
            Refuse::All => s += " refuse=all",
            Refuse::Mask(m) => s += &format!(" refuse=mask/{m}"),
            Refuse::Budget(b) => s += &format!(" refuse=budget/{b}"),
        }
        match self.fault {
            CbFault::None => {}
            CbFault::Panic(k) => s += &format!(" fault=panic/{k}"),
            CbFault::Reenter(k) => s += &format!(" fault=reenter/{k}"),
            CbFault::Grow(k) => s += &format!(" fault=grow/{k}"),
        }
        if let Some(c) = &self.nested {
            s += &format!(" nested={}", call_text(c));
        }
        if let Some((c, n)) = self.grow {
            s += &format!(" growcoll={c}/{n}");
        }
        s
    }

    pub fn parse(line: &str) -> Op {
        let mut w = line.split(' ');
        assert_eq!(w.next(), Some("op"));
        let id = w.next().unwrap().parse().unwrap();
        let name = w.next().unwrap();
        let kv: Vec<(&str, &str)> = w.filter_map(|x| x.split_once('=')).collect();
        let find = |k: &str| kv.iter().find(|x| x.0 == k).map(|x| x.1);
        let num = |k: &str| find(k).unwrap().parse::<usize>().unwrap();
        let ch = || char::from_u32(num("c") as u32).unwrap();
        let slot = || num("slot");
        let text = || parse_text(find("text").unwrap());
        let kind = match name {
            "fmt" => Kind::Fmt {
                call: parse_call(find("call").unwrap()),
                slot: find("slot").map(|s| s.parse().unwrap()),
            },
            "new" => Kind::New { slot: slot(), how: num("how") as u8 },
            "fromstr" => Kind::FromStr { slot: slot(), text: text() },
            "fromchar" => Kind::FromChar { slot: slot(), c: ch() },
            "fromstring" => Kind::FromString { slot: slot(), text: text(), by_ref: num("ref") == 1 },
            "push" => Kind::Push { slot: slot(), c: ch() },
            "pushstr" => Kind::PushStr { slot: slot(), text: text() },
            "pushslot" => Kind::PushSlot { slot: slot(), from: num("from") },
            "pushfront" => Kind::PushFront { slot: slot(), c: ch() },
            "case" => Kind::Case { slot: slot(), upper: num("upper") == 1 },
            "clone" => Kind::Clone { slot: slot(), from: num("from"), reuse: num("reuse") == 1 },
            "rebuild" => Kind::Rebuild { slot: slot(), from: num("from"), how: num("how") as u8 },
            "compare" => Kind::Compare { slot: slot(), with: num("with") },
            "comparetext" => Kind::CompareText { slot: slot(), text: text() },
            "intostring" => Kind::IntoString { slot: slot() },
            "tryintostring" => Kind::TryIntoString { slot: slot() },
            "debug" => Kind::Debug { slot: slot() },
            "show" => Kind::Show {
                slot: slot(),
                form: num("form") as u32,
                w: num("w") as u32,
                p: num("p") as u32,
                sink: parse_sink(find("sink").unwrap()),
            },
            "drop" => Kind::Drop { slot: slot() },
            "grow" => Kind::Grow { coll: num("coll"), by: num("by") },
            _ => panic!("operation {name}?"),
        };
        let arg = |s: &str| s.split_once('/').map_or(0, |x| x.1.parse::<u64>().unwrap());
        Op {
            id,
            rep: find("rep").map_or(1, |x| x.parse().unwrap()),
            kind,
            refuse: match find("refuse") {
                None => Refuse::None,
                Some("all") => Refuse::All,
                Some(s) if s.starts_with("mask") => Refuse::Mask(arg(s)),
                Some(s) => Refuse::Budget(arg(s)),
            },
            fault: match find("fault") {
                None => CbFault::None,
                Some(s) if s.starts_with("panic") => CbFault::Panic(arg(s) as u32),
                Some(s) if s.starts_with("reenter") => CbFault::Reenter(arg(s) as u32),
                Some(s) => CbFault::Grow(arg(s) as u32),
            },
            nested: find("nested").map(parse_call),
            grow: find("growcoll").map(|s| {
                let (a, b) = s.split_once('/').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            }),
        }
    }
}

fn opnum(x: u32) -> String {
    if x == simcore::OP_END {
        "-".into()
    } else {
        x.to_string()
    }
}

impl Plan {
    pub fn n_ops(&self) -> usize {
        self.tasks.iter().map(Vec::len).sum()
    }

    pub fn text(&self) -> String {
        let mut s = format!(
            "nomsim-plan 1\nproperty {}\nbuild {}\nseed {}\nceiling {}\nfair {}\nlimit {}\n",
            self.prop,
            if self.heap { "heap" } else { "noheap" },
            self.seed,
            self.ceiling,
            self.fair,
            self.limit
        );
        for x in &self.sys {
            s += &format!("sys {}\n", x.text());
        }
        for t in &self.tasks {
            s += "task\n";
            for o in t {
                s += &format!("{}\n", o.text());
            }
        }
        match &self.schedule {
            Schedule::Random { seed, strategy, kills, kill_p, killable } => {
                let (n, a) = match strategy {
                    Strategy::Boundary => ("boundary", 0),
                    Strategy::Quantum(k) => ("quantum", *k),
                    Strategy::Target(k) => ("target", *k),
                    Strategy::Shared(k) => ("shared", *k),
                };
                s += &format!("schedule random {seed} {n} {a} {kills} {kill_p} {killable}\n");
            }
            Schedule::Explicit(x) => {
                s += "schedule explicit\n";
                for w in x {
                    let tick =
                        if w.tick == u64::MAX { "end".into() } else { w.tick.to_string() };
                    s += &format!(
                        "switch {} {} {tick} {} {}\n",
                        opnum(w.task),
                        opnum(w.op),
                        w.to,
                        w.kill
                    );
                }
            }
        }
        s += "end\n";
        s
    }

    pub fn parse(s: &str) -> Plan {
        let mut p = Plan {
            prop: String::new(),
            heap: true,
            seed: 0,
            ceiling: 256 << 10,
            fair: 1 << 20,
            limit: 1 << 24,
            sys: vec![],
            tasks: vec![],
            schedule: Schedule::Explicit(vec![]),
        };
        for line in s.lines() {
            let (a, b) = line.split_once(' ').unwrap_or((line, ""));
            match a {
                "property" => p.prop = b.into(),
                "build" => p.heap = b == "heap",
                "seed" => p.seed = b.parse().unwrap(),
                "ceiling" => p.ceiling = b.parse().unwrap(),
                "fair" => p.fair = b.parse().unwrap(),
                "limit" => p.limit = b.parse().unwrap(),
                "sys" => p.sys.push(Spec::parse(b)),
                "task" => p.tasks.push(vec![]),
                "op" => p.tasks.last_mut().unwrap().push(Op::parse(line)),
                "schedule" => {
                    let f: Vec<&str> = b.split(' ').collect();
                    p.schedule = if f[0] == "random" {
                        let n = |i: usize| f[i].parse::<u64>().unwrap();
                        let k = n(3) as u32;
                        Schedule::Random {
                            seed: n(1),
                            strategy: match f[2] {
                                "boundary" => Strategy::Boundary,
                                "quantum" => Strategy::Quantum(k),
                                "target" => Strategy::Target(k),
                                _ => Strategy::Shared(k),
                            },
                            kills: n(4) as u32,
                            kill_p: n(5) as u32,
                            killable: n(6) as u32,
                        }
                    } else {
                        Schedule::Explicit(vec![])
                    };
                }
                "switch" => {
                    let f: Vec<&str> = b.split(' ').collect();
                    let n = |i: usize| f[i].parse::<u64>().unwrap_or(simcore::OP_END.into()) as u32;
                    let w = Switch {
                        task: n(0),
                        op: n(1),
                        tick: if f[2] == "end" { u64::MAX } else { f[2].parse().unwrap() },
                        to: n(3),
                        kill: n(4),
                    };
                    if let Schedule::Explicit(x) = &mut p.schedule {
                        x.push(w);
                    }
                }
                _ => {}
            }
        }
        p
    }
}
