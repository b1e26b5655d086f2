//! Makes plans from seeds.  Everything about a run follows from the property,
//! the build and one number.

use crate::judge::{FIXED, PER_BYTE};
use crate::model::{self, Want};
use crate::plan::{Call, Kind, Op, Plan, Schedule, Sink, Spec, Text, ALTERED, ROUTES, SLOTS};
use simcore::rng::mix;
use simcore::{CbFault, Refuse, Rng, Strategy};
use sut::{DigSpec, Fb, Mode, Shape, Ty, Wrap, Zh, FBS, MODES, NAMED, SHAPES, WRAPS};

const CAP: u64 = 62;

/// Numbers that occur in the library's code (see `harvest` in check.py), if
/// this simulator was built by check.py.
static NUMBERS: std::sync::OnceLock<Vec<u128>> = std::sync::OnceLock::new();

fn numbers() -> &'static [u128] {
    NUMBERS.get_or_init(|| {
        let mut file = std::env::current_exe().unwrap();
        file.pop();
        file.set_file_name("numbers");
        let text = std::fs::read_to_string(file).unwrap_or_default();
        text.lines().filter_map(|l| l.parse().ok()).collect()
    })
}

pub struct Gen {
    r: Rng,
    prop: String,
    heap: bool,
    ids: u32,
    colls: usize,
    /// Texts of a hundred kilobytes, too.
    big: bool,
    /// Values used before: some later ones are related to them.
    vals: Vec<u128>,
    last_text: Option<Text>,
    /// Two strings of nearly the same text, to be compared next.
    twins: Option<(usize, usize, usize)>,
}

/// A plan as the property needs it.
pub fn plan(prop: &str, heap: bool, seed: u64) -> Plan {
    let mut h = mix(seed);
    for b in prop.bytes() {
        h = mix(h ^ u64::from(b));
    }
    let mut g = Gen {
        r: Rng::new(h),
        prop: prop.into(),
        heap,
        ids: 0,
        colls: 0,
        big: false,
        vals: vec![],
        last_text: None,
        twins: None,
    };
    let mut p = Plan {
        prop: prop.into(),
        heap,
        seed,
        ceiling: 16 << 10,
        fair: 300_000,
        limit: 8_000_000,
        sys: vec![],
        tasks: vec![],
        schedule: Schedule::Random {
            seed: mix(h),
            strategy: Strategy::Boundary,
            kills: 0,
            kill_p: 0,
            killable: 0,
        },
    };
    p.ceiling = *g.r.pick(&[1 << 10, 2 << 10, 4 << 10, 8 << 10, 16 << 10]);
    g.big = heap && matches!(prop, "C01" | "C02" | "C03" | "C05" | "C10") && g.r.chance(1, 40);
    if g.big {
        p.ceiling = 140 << 10;
    }
    match prop {
        "C01" | "C02" => g.memory(&mut p),
        "C03" => g.strings(&mut p),
        "C04" => g.inline(&mut p),
        "C05" => g.conserve(&mut p),
        "C06" => g.concurrent(&mut p, false),
        "C07" => g.history(&mut p),
        "C08" => g.display(&mut p),
        "C09" => g.builds(&mut p),
        "C10" => g.work(&mut p),
        "C11" => g.concurrent(&mut p, true),
        "C12" => g.unwinding(&mut p),
        "C13" => g.collections(&mut p),
        _ => panic!("property {prop}?"),
    }
    // No call that keeps to its bound comes near the limit.
    p.limit = p.limit.max(2 * (FIXED + PER_BYTE * p.ceiling as u64));
    p
}

impl Gen {
    fn id(&mut self) -> u32 {
        self.ids += 1;
        self.ids
    }

    fn op(&mut self, kind: Kind) -> Op {
        Op::new(self.id(), kind)
    }

    // -------------------------------------------------------- systems

    fn dig(&mut self) -> Spec {
        let known = if self.r.chance(1, 8) { self.magic(usize::MAX as u128) } else { None };
        let r = &mut self.r;
        let huge = |r: &mut Rng| {
            let n = *r.pick(&[1 << 16, 1 << 32, 1 << 63, u64::MAX, 70_000, 1 << 17]);
            match r.below(3) {
                0 => n - 1,
                1 => n,
                _ => n.saturating_add(r.below(3)),
            }
        };
        let len = match r.below(12) {
            10 => huge(r),
            _ if known.is_some() => known.unwrap() as u64,
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 10,
            4 => 26,
            5 => *r.pick(&[254, 255, 256, 257, 258]),
            6 => *r.pick(&[127, 128, 129, 300, 390]),
            7 => r.range(0, 390),
            _ => r.range(1, 40),
        } as usize;
        let len2 = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.range(0, 390),
            3 if r.chance(1, 4) => huge(r),
            _ => r.range(1, 20),
        } as usize;
        let limit = match r.below(4) {
            0 => len.saturating_sub(1),
            1 => len.saturating_add(r.usize(12)),
            2 => *r.pick(&[0, 1, 255, 256, 1000, usize::MAX]),
            _ => r.usize(len.saturating_add(2)),
        };
        let has_zero = r.chance(1, 3);
        let id = self.colls;
        self.colls += 2;
        Spec::Dig(DigSpec {
            shape: *r.pick(&SHAPES),
            fb: *r.pick(&FBS),
            id,
            id2: id + 1,
            len,
            len2,
            limit,
            has_zero,
            zero_based: has_zero || r.chance(1, 2),
            fixed: r.chance(1, 4),
            first: *r.pick(&[1, 0x21, 0x7E0, 0x100, 0x4E00, 0xFF00, 0x1F000]),
        })
    }

    /// A well-behaved caller-supplied collection with a decent range.
    fn plain_dig(&mut self) -> Spec {
        let Spec::Dig(mut d) = self.dig() else { unreachable!() };
        if d.len < 2 {
            d.len = 7;
        }
        d.shape = *self.r.pick(&[Shape::Plain, Shape::One, Shape::Chain, Shape::OneChain, Shape::Restrict]);
        d.limit = d.limit.max(2);
        if self.r.chance(2, 3) {
            d.fixed = false;
            d.len = d.len.min(60);
        }
        Spec::Dig(d)
    }

    fn spec(&mut self) -> Spec {
        let r = &mut self.r;
        match r.weighted(&[30, 16, 14, 14, 6, 16]) {
            0 => Spec::Named(*r.pick(NAMED)),
            1 => {
                // Additive and other systems of long texts.
                let names: Vec<&'static str> = NAMED
                    .iter()
                    .copied()
                    .filter(|n| n.starts_with("add-") || n.starts_with("enum-"))
                    .collect();
                Spec::Named(*r.pick(&names))
            }
            2 => Spec::Named(*r.pick(&[
                "roman-lower",
                "roman-upper",
                "armenian-upper",
                "armenian-lower",
                "georgian",
                "japanese-formal",
                "japanese-informal",
                "hangeul-formal",
                "hanja-informal",
                "hanja-formal",
                "hebrew",
                "ethiopic",
            ])),
            3 => Spec::Zh(Zh {
                traditional: r.chance(1, 2),
                formal: r.chance(1, 2),
                financial: r.chance(1, 2),
                scale: r.below(4) as u8,
            }),
            4 => Spec::Named("user"),
            _ => {
                if self.colls < 7 && self.r.chance(1, 2) {
                    self.dig()
                } else {
                    Spec::Named(*self.r.pick(&[
                        "decimal",
                        "letter-lower",
                        "letter-lower-one",
                        "binary",
                        "binary-wide",
                        "tally",
                        "tally-one",
                        "dice",
                        "cjk-heavenly",
                        "cjk-earthly",
                        "letters-300-one",
                        "hex-lower",
                        "tibetan",
                    ]))
                }
            }
        }
    }

    fn callback_spec(&mut self) -> Spec {
        if self.colls < 7 && self.r.chance(4, 5) {
            if self.r.chance(1, 2) {
                self.plain_dig()
            } else {
                self.dig()
            }
        } else {
            Spec::Named("user")
        }
    }

    fn ty(&mut self) -> Ty {
        [Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::Usize]
            [self.r.weighted(&[15, 10, 20, 20, 30, 5])]
    }

    // -------------------------------------------------------- values

    fn fit(v: u128, max: u128) -> u128 {
        if v > max {
            v & max
        } else {
            v
        }
    }

    /// A number of the library's code up to `max`, or one beside it.
    fn magic(&mut self, max: u128) -> Option<u128> {
        let all = numbers();
        let n = all.partition_point(|&x| x <= max);
        if n == 0 {
            return None;
        }
        let v = all[self.r.usize(n)];
        Some(match self.r.below(4) {
            0 => v.saturating_add(1).min(max),
            1 => v - 1,
            _ => v,
        })
    }

    fn magic_value(&mut self, max: u128) -> Option<u128> {
        let a = self.magic(max)?;
        let bits = self.r.range(0, 60) as u32;
        let k = self.r.u128() >> (127 - bits);
        let b = self.magic(max)?;
        Some(match self.r.below(6) {
            0 | 1 => a,
            2 => a.wrapping_mul(k),
            3 => a.wrapping_mul(k).wrapping_add(b % a.max(1)),
            4 => a.wrapping_mul(k).wrapping_add(u128::from(self.r.below(256))),
            _ => a.wrapping_mul(b).wrapping_add(u128::from(self.r.below(3))),
        })
    }

    fn base_value(&mut self, s: &Spec, max: u128) -> u128 {
        let unit = model::unit(s);
        if self.r.chance(1, 10) {
            if let Some(v) = self.magic_value(max) {
                return Self::fit(v, max);
            }
        }
        let r = &mut self.r;
        let small = |r: &mut Rng| -> u128 {
            let bits = r.range(0, 7);
            u128::from(r.below(1 << bits))
        };
        let v = match r.weighted(&[12, 14, 8, 12, 16, 6, 6, 4, 8, 6, 12]) {
            0 => u128::from(r.below(130)),
            1 => {
                let bits = r.range(1, 128) as u32;
                r.u128() >> (128 - bits)
            }
            2 => {
                let k = r.below(39) as u32;
                10u128.pow(k).wrapping_add(small(r)).wrapping_sub(small(r))
            }
            3 => {
                let n = r.range(1, 38);
                let p = *r.pick(&[1, 2, 4, 6]);
                let mut v = 0u128;
                for _ in 0..n {
                    let d = if !r.chance(p, 8) {
                        0
                    } else if r.chance(1, 2) {
                        1
                    } else {
                        r.below(10)
                    };
                    v = v * 10 + u128::from(d);
                }
                v
            }
            4 => {
                let bits = r.range(0, 7);
                let k = u128::from(r.below(1 << bits));
                let rest = match r.below(4) {
                    0 => 0,
                    1 => *r.pick(&[1, 4, 9, 15, 16, 40, 90]),
                    2 => u128::from(r.below(100)),
                    _ => r.u128() % unit.max(1),
                };
                unit.wrapping_mul(k).wrapping_add(rest)
            }
            5 => max - small(r),
            6 => (1u128 << r.below(128)).wrapping_add(small(r)).wrapping_sub(small(r)),
            7 => r.u128(),
            8 => match self.vals.last() {
                Some(_) => {
                    let v = *r.pick(&self.vals);
                    let d = 1u128 << *r.pick(&[0u32, 1, 7, 8, 16, 24, 31, 32, 40, 48, 63, 64, 96]);
                    match r.below(6) {
                        0 | 1 => v.wrapping_add(d),
                        2 => v.wrapping_sub(d),
                        3 => v.wrapping_add(d.wrapping_mul(u128::from(r.below(200)))),
                        4 => v,
                        _ => v.wrapping_mul(2),
                    }
                }
                None => small(r),
            },
            9 => {
                // Where a numeral in this base gets longer.
                let b = unit.max(2);
                let k = r.range(1, 12);
                let mut v = 0u128;
                let one = r.chance(1, 2);
                let mut p = 1u128;
                for _ in 0..k {
                    let Some(n) = p.checked_mul(b) else { break };
                    p = n;
                    v = if one { v.saturating_add(p) } else { p };
                }
                v.wrapping_add(small(r) % 3).wrapping_sub(small(r) % 3)
            }
            _ => {
                // Decimal digits in groups of four (or two).
                let n = r.range(1, 10);
                let mut v = 0u128;
                for _ in 0..n {
                    let g = match r.below(9) {
                        0 | 1 => 0,
                        2 => 1,
                        3 => 10 * r.below(10),
                        4 => 100 * r.below(10) + r.below(2),
                        5 => 1000 * r.below(10) + r.below(2),
                        6 => r.below(100),
                        7 => 1 + 10 * r.below(2) + 100 * r.below(2),
                        _ => r.below(10_000),
                    };
                    v = v.wrapping_mul(10_000).wrapping_add(u128::from(g));
                }
                v
            }
        };
        Self::fit(v, max)
    }

    fn text_len(s: &Spec, v: u128, max: u128) -> u128 {
        match model::want(s, v, max) {
            Want::Text(r) => r.len(),
            Want::Oob { partial } => partial,
            _ => 0,
        }
    }

    /// A value; with a target, one whose text is about that long.
    fn value(&mut self, s: &Spec, ty: Ty, target: Option<u128>) -> u128 {
        let max = ty.max();
        let mut v = self.base_value(s, max);
        if let Some(t) = target {
            let unit = model::unit(s).max(1);
            let mut best = Self::text_len(s, v, max).abs_diff(t);
            for _ in 0..14 {
                if best == 0 {
                    break;
                }
                let r = &mut self.r;
                let n = match r.below(8) {
                    0 => v.wrapping_add(unit),
                    1 => v.wrapping_sub(unit),
                    2 => v.wrapping_add(unit.wrapping_mul(1 << r.below(8))),
                    3 => v / 2,
                    4 => v.wrapping_mul(2),
                    5 => v.wrapping_add(u128::from(r.below(100))),
                    6 => {
                        // About as many of the largest sign as fit.
                        let one = Self::text_len(s, unit.min(max), max).max(1);
                        unit.wrapping_mul(t / one).wrapping_add(u128::from(r.below(30)))
                    }
                    _ => self.base_value(s, max),
                };
                let n = Self::fit(n, max);
                let d = Self::text_len(s, n, max).abs_diff(t);
                if d <= best {
                    best = d;
                    v = n;
                }
            }
        }
        self.vals.push(v);
        v
    }

    /// About as long as no eight or sixteen bits can count.
    fn long(&mut self) -> u64 {
        match self.r.below(6) {
            0 | 1 => self.r.range(65_530, 65_540),
            2 => self.r.range(32_765, 32_770),
            3 => self.r.range(131_000, 131_080),
            4 => 1 << self.r.range(12, 17),
            _ => self.r.range(4_000, 140_000),
        }
    }

    fn target(&mut self) -> Option<u128> {
        if self.big && self.r.chance(1, 2) {
            return Some(self.long().into());
        }
        if self.r.chance(1, 16) {
            let most = if self.r.chance(1, 8) { 16_000 } else { 1500 };
            return self.magic(most);
        }
        match self.r.below(10) {
            0..=3 => None,
            4..=7 => Some(u128::from(self.r.range(58, 68))),
            8 => Some(u128::from(self.r.range(62, 260))),
            _ => Some(u128::from(self.r.range(260, 3000))),
        }
    }

    // -------------------------------------------------------- faults

    fn refuse(&mut self, len: u128) -> Refuse {
        let r = &mut self.r;
        let k = {
            let b = r.below(4);
            r.below(1 << b)
        };
        match r.weighted(&[30, 16, 16, 16, 6, 20]) {
            0 => Refuse::None,
            1 => Refuse::All,
            2 => Refuse::Mask(1 << k),
            3 => Refuse::Mask(u64::MAX << k),
            4 => Refuse::Mask(r.u64()),
            _ => {
                let len = u64::try_from(len).unwrap_or(1 << 20).min(1 << 20);
                Refuse::Budget(match r.below(5) {
                    0 => len.saturating_sub(r.below(4)),
                    1 => len + r.below(4),
                    2 => r.range(62, 200),
                    3 => r.below(2 * len + 64),
                    _ => *r.pick(&[0, 62, 63, 64, 65, 66, 124, 126, 128, 130, 256, 512]),
                })
            }
        }
    }

    fn wrap(&mut self) -> Wrap {
        if self.heap && self.r.chance(1, 4) {
            *self.r.pick(&WRAPS)
        } else {
            Wrap::Direct
        }
    }

    fn call(&mut self, specs: &[Spec], sys: usize, modes: &[Mode], target: Option<u128>) -> (Call, u128) {
        let ty = self.ty();
        let v = self.value(&specs[sys], ty, target);
        let len = Self::text_len(&specs[sys], v, ty.max());
        let mode = *self.r.pick(modes);
        let wrap = self.wrap();
        (Call { sys, ty, v, mode, wrap }, len)
    }

    fn cb_index(&mut self) -> u32 {
        if self.r.chance(1, 12) {
            if let Some(n) = self.magic(400) {
                return n as u32;
            }
        }
        let b = self.r.below(9);
        self.r.below(1 << b) as u32
    }

    // -------------------------------------------------------- strings

    fn len(&mut self) -> u32 {
        if self.big && self.r.chance(1, 6) {
            return self.long() as u32;
        }
        if self.r.chance(1, 12) {
            if let Some(n) = self.magic(4096) {
                return n as u32;
            }
        }
        let r = &mut self.r;
        match r.below(12) {
            0 => 0,
            1 => 1,
            2..=4 => r.range(2, 20) as u32,
            5 => r.range(28, 34) as u32,
            6 | 7 => r.range(56, 66) as u32,
            8 => r.range(20, 62) as u32,
            9 => *r.pick(&[126, 127, 128, 129, 190, 191, 192, 193, 194, 195]),
            10 if r.chance(1, 4) => ((1u32 << r.range(9, 12)) + r.below(5) as u32) - 2,
            10 => *r.pick(&[253, 254, 255, 256, 257, 258, 300, 318, 320]),
            _ => r.range(62, 1000) as u32,
        }
    }

    fn text(&mut self, max: u32) -> Text {
        let len = self.len();
        let len = if len > max { len % (max + 1) } else { len };
        let r = &mut self.r;
        let mut t = Text { class: r.weighted(&[8, 3, 3, 3, 4, 3, 1]) as u8, seed: r.below(1 << 20) as u32, len };
        if let (Some(l), true) = (self.last_text, r.chance(1, 8)) {
            // The beginning of an earlier one, or more of it.
            t = Text { len, ..l };
            if r.chance(1, 3) {
                t.len = l.len.min(max);
            }
        }
        self.last_text = Some(t);
        t
    }

    fn ch(&mut self) -> char {
        if self.r.chance(1, 12) {
            if let Some(c) = self.magic(0x10FFFF).and_then(|n| char::from_u32(n as u32)) {
                return c;
            }
        }
        let r = &mut self.r;
        match r.below(8) {
            0..=2 => char::from(b'a' + r.below(26) as u8),
            3 => char::from(b'A' + r.below(26) as u8),
            4 => *r.pick(&['é', '\u{7FF}', '\u{80}', 'я']),
            5 => *r.pick(&['字', '\u{800}', '\u{FFFF}', '한']),
            6 => *r.pick(&['🌑', '\u{10FFFF}', '\u{10000}']),
            _ => *r.pick(&['\0', '\u{7F}', '"', '\\', '\n', '\u{305}']),
        }
    }

    /// One step on the strings in `slots`; `lens` bounds their lengths.
    fn string_op(&mut self, lens: &mut [Option<u64>], max: u64) -> Op {
        let n = lens.len();
        let slot = self.r.usize(n);
        let from = self.r.usize(n);
        let room = |lens: &[Option<u64>], s: usize| max.saturating_sub(lens[s].unwrap_or(0)) as u32;
        let empty = lens[slot].is_none();
        if let Some((slot, with, k)) = self.twins.take() {
            if k == n && lens[slot].is_some() && lens[with].is_some() && self.r.chance(3, 4) {
                return self.op(Kind::Compare { slot, with });
            }
        }
        let w: [u32; 17] = if empty {
            [10, 12, 3, 6, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 4]
        } else {
            [2, 2, 1, 1, 12, 12, 6, 14, 4, 6, 5, 3, 1, 3, 4, 2, 2]
        };
        let kind = match self.r.weighted(&w) {
            0 => {
                lens[slot] = Some(0);
                Kind::New { slot, how: [0, 1, 1, 2][self.r.usize(4)] }
            }
            1 => {
                let cap = if self.heap { max as u32 } else { 62 };
                let text = self.text(cap.min(max as u32));
                lens[slot] = Some(u64::from(text.len) + 3);
                Kind::FromStr { slot, text }
            }
            2 => {
                lens[slot] = Some(4);
                Kind::FromChar { slot, c: self.ch() }
            }
            3 => {
                let cap = if self.heap { max as u32 } else { 62 };
                let text = self.text(cap.min(max as u32));
                lens[slot] = Some(u64::from(text.len) + 3);
                Kind::FromString { slot, text, by_ref: max <= CAP || self.r.chance(1, 2) }
            }
            4 => {
                lens[slot] = lens[slot].map(|x| x + 4);
                Kind::Push { slot, c: self.ch() }
            }
            5 => {
                let room = if self.r.chance(1, 3) && lens[slot].unwrap_or(0) < CAP {
                    // Up to the inline capacity, give or take.
                    (CAP - lens[slot].unwrap() + self.r.below(3)) as u32
                } else {
                    room(lens, slot)
                };
                let text = self.text(room);
                lens[slot] = lens[slot].map(|x| x + u64::from(text.len) + 3);
                Kind::PushStr { slot, text }
            }
            6 if lens[from].is_some_and(|x| x + lens[slot].unwrap() <= max) => {
                lens[slot] = lens[slot].map(|x| x + lens[from].unwrap());
                Kind::PushSlot { slot, from }
            }
            7 => {
                lens[slot] = lens[slot].map(|x| x + 4);
                Kind::PushFront { slot, c: self.ch() }
            }
            8 => Kind::Case { slot, upper: self.r.chance(1, 2) },
            9 if lens[from].is_some() && from != slot => {
                lens[slot] = lens[from];
                Kind::Clone { slot, from, reuse: self.r.chance(1, 2) }
            }
            10 if lens[from].is_some() && lens[slot].is_some() => Kind::Compare { slot, with: from },
            11 => Kind::CompareText { slot, text: self.text(400) },
            12 if max > CAP => {
                lens[slot] = None;
                Kind::IntoString { slot }
            }
            13 => {
                if lens[slot].is_some_and(|x| x > CAP) {
                    lens[slot] = None;
                }
                Kind::TryIntoString { slot }
            }
            14 => Kind::Debug { slot },
            15 => {
                lens[slot] = None;
                Kind::Drop { slot }
            }
            16 if lens[from].is_some_and(|x| x + 4 <= max) => {
                lens[slot] = lens[from].map(|x| x + 4);
                let alter = if self.r.chance(1, 3) { 0 } else { self.r.below(ALTERED.into()) as u8 };
                if slot != from {
                    self.twins = Some(if self.r.chance(1, 2) { (slot, from, n) } else { (from, slot, n) });
                }
                Kind::Rebuild { slot, from, how: alter * ROUTES + self.r.below(ROUTES.into()) as u8 }
            }
            _ => {
                lens[slot] = Some(0);
                Kind::New { slot, how: 1 }
            }
        };
        self.op(kind)
    }

    /// May the heap refuse requests of this step (the standard library aborts
    /// when some of them are refused)?
    fn refusable(k: &Kind) -> bool {
        matches!(
            k,
            Kind::Push { .. } | Kind::PushStr { .. } | Kind::PushSlot { .. } | Kind::PushFront { .. }
        )
    }

    // ======================================================== properties

    fn memory(&mut self, p: &mut Plan) {
        let modes: &[Mode] = if self.prop == "C01" {
            &[Mode::Try, Mode::TryTo]
        } else {
            &[Mode::Format, Mode::To, Mode::Unwrap, Mode::IntoDecimal]
        };
        let n = self.r.range(1, 4);
        p.sys = (0..n).map(|_| self.spec()).collect();
        let mut ops = vec![];
        let n = if self.big { 3 } else { self.r.range(4, 16) };
        // Collections that grow meanwhile.
        let growing = self.prop == "C01" && self.r.chance(1, 20);
        if growing {
            self.colls = 0;
            p.sys = (0..p.sys.len()).map(|_| self.dig()).collect();
        }
        let n_colls = self.colls as u64;
        while (ops.len() as u64) < n {
            let sys = self.r.usize(p.sys.len());
            let target = self.target();
            let (call, len) = self.call(&p.sys, sys, modes, target);
            // The same call under several ways of running out of memory.
            let times = if self.heap { self.r.range(1, 5) } else { 1 };
            for _ in 0..times {
                let mut o = self.op(Kind::Fmt { call, slot: None });
                if self.heap {
                    o.refuse = self.refuse(len);
                }
                if growing {
                    if self.r.chance(1, 2) {
                        o.fault = CbFault::Grow(self.cb_index());
                        o.grow = Some(self.growth(n_colls));
                    }
                    ops.push(o);
                    continue;
                }
                self.seldom_repeat(p, &mut o, 60);
                ops.push(o);
            }
            self.seldom_sweep(p, 120, modes, 300, &mut ops);
        }
        p.tasks = vec![ops];
    }

    fn strings(&mut self, p: &mut Plan) {
        p.ceiling = if self.big { 4 << 20 } else { *self.r.pick(&[8 << 10, 16 << 10, 32 << 10]) };
        let n = if self.big { 12 } else { self.r.range(8, 60) };
        let max = if self.big { 140_000 } else { *self.r.pick(&[62, 70, 130, 260, 600, 4000, 4200]) };
        let slots = self.r.range(1, 4) as usize;
        let faults = self.r.chance(2, 3);
        let mut lens = vec![None; slots];
        if !self.big && self.r.chance(1, 3) {
            p.sys = vec![self.spec()];
        }
        let mut ops = vec![];
        for _ in 0..n {
            if !p.sys.is_empty() && self.r.chance(1, 12) {
                // A string made by a system.
                let t = u128::from(self.r.range(30, 90));
                let (call, len) = self.call(&p.sys, 0, &MODES, Some(t));
                let slot = self.r.usize(slots);
                lens[slot] = None;
                if len < max.into() {
                    lens[slot] = Some(len as u64 + 40);
                }
                ops.push(self.op(Kind::Fmt { call, slot: Some(slot) }));
                continue;
            }
            let mut o = self.string_op(&mut lens, max);
            if faults && self.heap && Self::refusable(&o.kind) && self.r.chance(1, 3) {
                o.refuse = match self.r.below(3) {
                    0 => Refuse::All,
                    1 => Refuse::Budget(self.r.below(max + 64)),
                    _ => Refuse::Mask(1 << self.r.below(2)),
                };
            }
            ops.push(o);
        }
        // Every string once more.
        for slot in 0..slots {
            let o = self.op(Kind::Compare { slot, with: (slot + 1) % slots });
            ops.push(o);
        }
        p.tasks = vec![ops];
    }

    fn inline(&mut self, p: &mut Plan) {
        let slots = self.r.range(1, 4) as usize;
        let mut lens = vec![None; slots];
        let n = self.r.range(1, 3);
        p.sys = (0..n).map(|_| self.spec()).collect();
        let mut ops = vec![];
        // Some histories have longer texts in them, too, with all that may
        // happen to those: what stays short must not need the heap after it.
        let long = self.r.chance(1, 3);
        let mut long_lens = vec![None; 2];
        let n = self.r.range(10, 40);
        for _ in 0..n {
            self.seldom_sweep(p, 400, &MODES, 200, &mut ops);
            if long && self.r.chance(1, 3) {
                let o = if self.r.chance(1, 2) {
                    let mut o = self.string_op(&mut long_lens, 600);
                    for s in o.kind.slots() {
                        *s += SLOTS - 2;
                    }
                    o
                } else {
                    self.any_fmt(p, 0)
                };
                ops.push(o);
                continue;
            }
            let mut o = match self.r.below(4) {
                0 | 1 => {
                    let mut o = self.string_op(&mut lens, CAP);
                    while matches!(
                        o.kind,
                        Kind::FromString { by_ref: false, .. } | Kind::IntoString { .. }
                    ) {
                        o = self.string_op(&mut lens, CAP);
                    }
                    if let Kind::FromStr { text, .. } | Kind::FromString { text, .. } = &mut o.kind {
                        text.len = text.len.min(62);
                    }
                    o
                }
                2 => {
                    let slot = self.r.usize(slots);
                    let kind = self.show(slot);
                    self.op(kind)
                }
                _ => {
                    let sys = self.r.usize(p.sys.len());
                    let t = *self.r.pick(&[10u128, 50, 60, 61, 62, 62]);
                    let (call, _) = self.call(&p.sys, sys, &MODES, Some(t));
                    let slot = if self.r.chance(1, 3) { Some(self.r.usize(slots)) } else { None };
                    if let Some(s) = slot {
                        lens[s] = Some(40);
                    }
                    self.op(Kind::Fmt { call, slot })
                }
            };
            if !matches!(o.kind, Kind::CompareText { .. }) {
                o.refuse = Refuse::All;
            }
            self.seldom_repeat(p, &mut o, 40);
            ops.push(o);
        }
        p.tasks = vec![ops];
    }

    /// Any call, with any fault that applies.
    fn any_fmt(&mut self, p: &Plan, slots: usize) -> Op {
        let sys = self.r.usize(p.sys.len());
        let target = self.target();
        let (call, len) = self.call(&p.sys, sys, &MODES, target);
        let slot = if slots > 0 && self.r.chance(1, 4) { Some(self.r.usize(slots)) } else { None };
        let mut o = self.op(Kind::Fmt { call, slot });
        if self.heap && self.r.chance(1, 2) {
            o.refuse = self.refuse(len);
        }
        if model::is_callback(&p.sys[sys]) && self.r.chance(1, 3) {
            o.fault = CbFault::Panic(self.cb_index());
        }
        o
    }

    /// The call many times over, and a number whose text isn't long.
    fn repeat(&mut self, p: &Plan, o: &mut Op) {
        let Kind::Fmt { call, slot: None } = &mut o.kind else { return };
        o.rep = match self.r.below(40) {
            0 => 1100,
            1..=9 => 300,
            10..=13 => self.magic(1100).map_or(130, |n| n as u32 + 2),
            _ => self.r.range(2, 70) as u32,
        };
        if self.heap && self.r.chance(1, 120) {
            // Texts that need the heap, until what they took adds up to megabytes.
            let t = u128::from(self.r.range(63, 140));
            let mode = call.mode;
            let (long, _) = self.call(&p.sys, call.sys, &[mode], Some(t));
            if (63..=200).contains(&Self::text_len(&p.sys[long.sys], long.v, long.ty.max())) {
                *call = long;
                o.rep = *self.r.pick(&[4_200, 17_000, 66_000]);
                if self.r.chance(3, 4) {
                    o.refuse = Refuse::None;
                }
                return;
            }
        }
        if Self::text_len(&p.sys[call.sys], call.v, call.ty.max()) > 100 {
            call.v = u128::from(self.r.below(60));
        }
        if Self::text_len(&p.sys[call.sys], call.v, call.ty.max()) <= 20 && self.r.chance(1, 150) {
            let all = numbers();
            let far = &all[all.partition_point(|&x| x <= 66_000)..all.partition_point(|&x| x <= 1_200_000)];
            o.rep = match self.r.below(4) {
                // A number of the library's code that is larger than that.
                0 if !far.is_empty() && self.r.chance(1, 3) => far[self.r.usize(far.len())] as u32 + 2,
                0 | 1 => self.magic(66_000).map_or(66_000, |n| n as u32 + 2),
                _ => 66_000,
            };
        }
    }

    /// A call that something might take for `c`: the number differs where only
    /// some of its bits are looked at, or the system or the type does.
    fn alike(&mut self, p: &Plan, c: Call) -> Call {
        let mut d = c;
        match self.r.below(8) {
            0 => d.sys = self.r.usize(p.sys.len()),
            1 => d.ty = self.ty(),
            2 => d.v = c.v.wrapping_add(model::unit(&p.sys[c.sys])),
            3 => d.v = c.v.wrapping_add(1 << self.r.below(128)),
            4 => d.v ^= u128::from(self.r.below(256)) << (8 * self.r.below(16)),
            _ => {
                if self.r.chance(1, 2) {
                    d.ty = Ty::U128;
                }
                let k = u128::from(self.r.range(1, 3));
                d.v = c.v.wrapping_add(k << *self.r.pick(&[8, 16, 32, 64, 64]));
            }
        }
        d.v = Self::fit(d.v, d.ty.max());
        if Self::text_len(&p.sys[d.sys], d.v, d.ty.max()) > 2000 {
            return c;
        }
        d
    }

    /// Many numbers one after the other: more than any table of results has
    /// room for.
    fn sweep(&mut self, p: &Plan, modes: &[Mode], most: u64, ops: &mut Vec<Op>) {
        let sys = self.r.usize(p.sys.len());
        let (call, _) = self.call(&p.sys, sys, modes, None);
        let max = call.ty.max();
        let n = match self.r.below(6) {
            0 => self.magic(u128::from(most)).map_or(20, |n| n as u64 + 2),
            1 | 2 => self.r.range(2, 24.min(most)),
            _ => self.r.range(2, most),
        };
        let by = match self.r.below(8) {
            0 => model::unit(&p.sys[sys]),
            1 => 1 << *self.r.pick(&[8, 16, 32, 64]),
            2 => self.magic(max).unwrap_or(10),
            3 => u128::from(self.r.range(2, 1000)),
            _ => 1,
        };
        let first = ops.len();
        for i in 0..n {
            let mut call = call;
            call.v = Self::fit(call.v.wrapping_add(by.wrapping_mul(u128::from(i))), max);
            if Self::text_len(&p.sys[sys], call.v, max) > 130 {
                continue;
            }
            if self.r.chance(1, 20) {
                call.mode = *self.r.pick(modes);
            }
            ops.push(self.op(Kind::Fmt { call, slot: None }));
        }
        // Some of them again.
        for _ in 0..self.r.below(4) {
            if ops.len() > first {
                let at = first + self.r.usize(ops.len() - first);
                let Kind::Fmt { call, .. } = ops[at].kind else { continue };
                ops.push(self.op(Kind::Fmt { call, slot: None }));
            }
        }
    }

    fn seldom_sweep(&mut self, p: &Plan, n: u64, modes: &[Mode], most: u64, ops: &mut Vec<Op>) {
        if self.r.chance(1, n) {
            self.sweep(p, modes, most, ops);
        }
    }

    /// One call in `n` many times over.
    fn seldom_repeat(&mut self, p: &Plan, o: &mut Op, n: u64) {
        if self.r.chance(1, n) {
            self.repeat(p, o);
        }
    }

    fn conserve(&mut self, p: &mut Plan) {
        if !self.big {
            p.ceiling = *self.r.pick(&[1 << 10, 4 << 10, 4 << 10, 16 << 10, 16 << 10, 64 << 10]);
        }
        p.limit = 40_000_000;
        let n = self.r.range(1, 3);
        p.sys = (0..n)
            .map(|_| if self.r.chance(1, 2) { self.callback_spec() } else { self.spec() })
            .collect();
        let tasks = if self.r.chance(1, 4) { 2 } else { 1 };
        for _ in 0..tasks {
            let slots = 3;
            let mut lens = vec![None; slots];
            let mut ops = vec![];
            let n = self.r.range(8, 40);
            for _ in 0..n {
                let o = match self.r.below(8) {
                    0..=3 => {
                        let mut o = self.any_fmt(p, slots);
                        self.seldom_repeat(p, &mut o, 40);
                        if let Kind::Fmt { slot: Some(s), .. } = o.kind {
                            lens[s] = Some(if self.big { 200_000 } else { 3000 });
                        }
                        o
                    }
                    7 => {
                        let slot = self.r.usize(slots);
                        let kind = self.show(slot);
                        self.op(kind)
                    }
                    _ => {
                        let mut o = self.string_op(&mut lens, 4000);
                        if Self::refusable(&o.kind) && self.r.chance(1, 3) {
                            o.refuse = match self.r.below(3) {
                                0 => Refuse::All,
                                1 => Refuse::Budget(self.r.below(600)),
                                _ => Refuse::Mask(1 << self.r.below(2)),
                            };
                        }
                        o
                    }
                };
                ops.push(o);
                self.seldom_sweep(p, 400, &MODES, 200, &mut ops);
            }
            p.tasks.push(ops);
        }
        if tasks > 1 {
            self.schedule(p);
        }
    }

    fn schedule(&mut self, p: &mut Plan) {
        let strategy = match self.r.below(8) {
            0 => Strategy::Boundary,
            1 => Strategy::Quantum(2),
            2 => Strategy::Quantum(4),
            3 => Strategy::Quantum(7),
            4 => Strategy::Quantum(10),
            5 => Strategy::Target(128),
            6 => Strategy::Shared(24),
            _ => Strategy::Shared(96),
        };
        if let Schedule::Random { strategy: s, .. } = &mut p.schedule {
            *s = strategy;
        }
    }

    fn concurrent(&mut self, p: &mut Plan, kills: bool) {
        let tasks = if kills { self.r.range(2, 4) } else { self.r.range(2, 6) } as usize;
        let n = self.r.range(1, 3);
        p.sys = (0..n)
            .map(|_| if self.r.chance(1, 5) { self.callback_spec() } else { self.spec() })
            .collect();
        // All callers draw from a small pool of calls.
        let mut pool: Vec<(Call, u128)> = vec![];
        let n = self.r.range(2, 8);
        for _ in 0..n {
            let sys = self.r.usize(p.sys.len());
            let target = if self.r.chance(1, 3) { Some(u128::from(self.r.range(56, 140))) } else { None };
            let (mut c, mut len) = self.call(&p.sys, sys, &MODES, target);
            if self.r.chance(1, 3) && !pool.is_empty() {
                // The same kind of call, another number, close or congruent.
                c = self.r.pick(&pool).0;
                if self.r.chance(1, 2) {
                    c = self.alike(p, c);
                } else {
                    c.v = self.value(&p.sys[c.sys], c.ty, None);
                }
                len = Self::text_len(&p.sys[c.sys], c.v, c.ty.max());
            }
            if len > 600 {
                c.v = u128::from(self.r.below(200));
                len = Self::text_len(&p.sys[c.sys], c.v, c.ty.max());
            }
            pool.push((c, len));
        }
        let faults = self.r.chance(1, 2);
        let string_p = *self.r.pick(&[0, 0, 20, 60]);
        for _ in 0..tasks {
            let mut ops = vec![];
            let mut lens = vec![None; 2];
            let n = self.r.range(2, 10);
            for _ in 0..n {
                if self.r.below(100) < string_p {
                    let slot = self.r.usize(2);
                    if lens[slot].is_some() && self.r.chance(1, 4) {
                        let mut kind = self.show(slot);
                        if let Kind::Show { sink, .. } = &mut kind {
                            if !faults || self.r.chance(1, 2) {
                                *sink = Sink::Ok;
                            }
                        }
                        ops.push(self.op(kind));
                        continue;
                    }
                    let mut o = self.string_op(&mut lens, 200);
                    if self.heap && faults && Self::refusable(&o.kind) && self.r.chance(1, 4) {
                        o.refuse = Refuse::All;
                    }
                    ops.push(o);
                    continue;
                }
                self.seldom_sweep(p, 240, &MODES, 100, &mut ops);
                let (mut call, len) = *self.r.pick(&pool);
                if self.r.chance(1, 4) {
                    call.mode = *self.r.pick(&MODES);
                }
                let mut o = self.op(Kind::Fmt { call, slot: None });
                if len <= 16 && self.r.chance(1, 40) {
                    // Often enough for a small counter to come round.
                    o.rep = match self.r.below(4) {
                        0 => self.magic(600).map_or(2, |n| n as u32 + 1),
                        1 => *self.r.pick(&[63, 64, 127, 128, 255, 256, 257, 300, 512]),
                        _ => self.r.range(2, 40) as u32,
                    };
                    ops.push(o);
                    continue;
                }
                if faults && self.heap && self.r.chance(1, 3) {
                    o.refuse = self.refuse(len);
                }
                if model::is_callback(&p.sys[call.sys]) {
                    match self.r.below(6) {
                        0 | 1 => {
                            o.fault = CbFault::Reenter(self.cb_index());
                            o.nested = Some(self.r.pick(&pool).0);
                        }
                        2 if faults => o.fault = CbFault::Panic(self.cb_index()),
                        _ => {}
                    }
                }
                ops.push(o);
            }
            p.tasks.push(ops);
        }
        self.schedule(p);
        if kills {
            if let Schedule::Random { kills, kill_p, killable, strategy, .. } = &mut p.schedule {
                *kills = self.r.range(1, tasks as u64 - 1) as u32;
                *kill_p = *self.r.pick(&[4, 16, 64]);
                *killable = (1 << tasks) - 2;
                if let Strategy::Boundary = strategy {
                    *strategy = Strategy::Quantum(5);
                }
                // At least one caller is never killed.
                let keep = self.r.below(tasks as u64);
                *killable = ((1 << tasks) - 1) & !(1 << keep);
            }
        }
    }

    fn history(&mut self, p: &mut Plan) {
        let n = self.r.range(1, 4);
        p.sys = (0..n)
            .map(|_| if self.r.chance(1, 4) { self.callback_spec() } else { self.spec() })
            .collect();
        let slots = 2;
        let mut lens = vec![None; slots];
        let mut ops: Vec<Op> = vec![];
        let n = self.r.range(20, 120);
        for _ in 0..n {
            let o = match self.r.below(20) {
                0 | 1 => {
                    let mut o = self.string_op(&mut lens, 200);
                    if self.heap && Self::refusable(&o.kind) && self.r.chance(1, 3) {
                        o.refuse = Refuse::All;
                    }
                    o
                }
                2 => {
                    let slot = self.r.usize(slots);
                    if lens[slot].is_none() {
                        let o = self.string_op(&mut lens, 200);
                        ops.push(o);
                    }
                    let kind = self.show(slot);
                    let mut o = self.op(kind.clone());
                    if self.r.chance(1, 12) {
                        o.rep = self.show_rep(&kind);
                    }
                    ops.push(o);
                    // Another, with nothing wrong.
                    let mut kind = self.show(slot);
                    if let Kind::Show { sink, .. } = &mut kind {
                        *sink = Sink::Ok;
                    }
                    self.op(kind)
                }
                3..=6 if !ops.is_empty() => {
                    // An earlier call again, perhaps under other conditions.
                    let mut o = self.r.pick(&ops).clone();
                    o.id = self.id();
                    o.rep = 1;
                    if !matches!(o.kind, Kind::Fmt { .. }) {
                        continue;
                    }
                    if let Kind::Fmt { slot, .. } = &mut o.kind {
                        *slot = None;
                    }
                    if self.r.chance(2, 3) {
                        o.fault = CbFault::None;
                        o.refuse = Refuse::None;
                        o.nested = None;
                    }
                    o
                }
                7..=10 => {
                    // A call that has nothing wrong with it.
                    let sys = self.r.usize(p.sys.len());
                    let t = if self.r.chance(1, 3) { Some(u128::from(self.r.range(50, 80))) } else { None };
                    let (call, _) = self.call(&p.sys, sys, &MODES, t);
                    self.op(Kind::Fmt { call, slot: None })
                }
                11 => {
                    let mut o = self.any_fmt(p, 0);
                    self.repeat(p, &mut o);
                    o
                }
                12 | 13 => {
                    // One, another like it, and perhaps the first again.
                    let sys = self.r.usize(p.sys.len());
                    let t = if self.r.chance(1, 3) { Some(u128::from(self.r.range(50, 80))) } else { None };
                    let (call, _) = self.call(&p.sys, sys, &MODES, t);
                    let other = self.alike(p, call);
                    let mut o = self.op(Kind::Fmt { call, slot: None });
                    let mut q = self.op(Kind::Fmt { call: other, slot: None });
                    if self.r.chance(1, 2) {
                        std::mem::swap(&mut o.kind, &mut q.kind);
                    }
                    if self.heap && self.r.chance(1, 4) {
                        o.refuse = self.refuse(64);
                    }
                    ops.push(o);
                    if self.r.chance(1, 3) {
                        let again = self.op(Kind::Fmt { call, slot: None });
                        ops.push(again);
                    }
                    q
                }
                _ => self.any_fmt(p, 0),
            };
            ops.push(o);
            self.seldom_sweep(p, 300, &MODES, 400, &mut ops);
        }
        p.tasks = vec![ops];
    }

    fn show(&mut self, slot: usize) -> Kind {
        let form = if self.r.chance(1, 8) {
            sut::FORMS + self.r.below(u64::from(sut::DEBUG_FORMS)) as u32
        } else {
            self.r.below(u64::from(sut::FORMS)) as u32
        };
        let w = match self.r.below(4) {
            0 => 0,
            1 => self.r.below(20) as u32,
            2 => self.r.range(55, 70) as u32,
            _ if self.r.chance(1, 4) => self.len() + self.r.below(3) as u32,
            _ => self.r.below(300) as u32,
        };
        let p = match self.r.below(3) {
            0 => self.r.below(20) as u32,
            1 => self.r.below(3) as u32,
            _ if self.r.chance(1, 4) => self.len(),
            _ => self.r.below(80) as u32,
        };
        // The most a format specification can say.
        let (w, p) = (w.min(65_535), p.min(65_535));
        let k = {
            let b = self.r.below(7);
            self.r.below(1 << b) as u32
        };
        let sink = match self.r.below(7) {
            0 => Sink::Ok,
            1 => Sink::FailCall(if self.r.chance(1, 4) { k } else { k % 8 }),
            2 => Sink::FailByte(k),
            3 => Sink::Once(k % 8),
            4 if self.r.chance(1, 2) => Sink::FailByte(self.len()),
            4 => Sink::FailByte(self.r.below(100) as u32),
            5 => Sink::Panic(k % 4),
            _ if self.r.chance(1, 3) => Sink::Reenter(k % 4),
            _ => Sink::Once(0),
        };
        Kind::Show { slot, form, w, p, sink }
    }

    /// How often a display is repeated: often enough for a small counter of
    /// failures to reach its end.
    fn show_rep(&mut self, kind: &Kind) -> u32 {
        let n = match self.r.below(6) {
            0 => self.magic(1000).map_or(2, |n| n as u32 + 1),
            1 => *self.r.pick(&[64, 65, 128, 129, 256, 257, 300, 513, 1025]),
            2 => self.r.range(40, 400) as u32,
            _ => self.r.range(2, 40) as u32,
        };
        match kind {
            Kind::Show { sink: Sink::Panic(_) | Sink::Reenter(_), .. } => n.min(70),
            _ => n,
        }
    }

    fn display(&mut self, p: &mut Plan) {
        let slots = 3;
        let mut lens = vec![None; slots];
        let max = *self.r.pick(&[62, 62, 62, 62, 130, 130, 600, 600, 4200]);
        if max > 1000 {
            p.ceiling = 64 << 10;
        }
        p.sys = vec![self.spec()];
        let mut ops = vec![];
        let n = self.r.range(6, 30);
        for _ in 0..n {
            let slot = self.r.usize(slots);
            if lens[slot].is_none() || self.r.chance(1, 3) {
                if self.r.chance(1, 4) {
                    let t = u128::from(self.r.range(5, 90));
                    let (call, _) = self.call(&p.sys, 0, &MODES, Some(t));
                    if Self::text_len(&p.sys[0], call.v, call.ty.max()) < 4000 {
                        lens[slot] = Some(max);
                        ops.push(self.op(Kind::Fmt { call, slot: Some(slot) }));
                    }
                } else {
                    ops.push(self.string_op(&mut lens, max));
                }
                continue;
            }
            let kind = self.show(slot);
            let mut o = self.op(kind.clone());
            // Reenter: the sink itself formats something while it is written to.
            if let (Kind::Show { sink, .. }, true) = (&mut o.kind, self.r.chance(1, 8)) {
                let t = u128::from(self.r.range(5, 70));
                let (mut call, len) = self.call(&p.sys, 0, &[Mode::Try], Some(t));
                if len > 500 {
                    call.v = 5;
                }
                *sink = Sink::Reenter(self.r.below(3) as u32);
                o.nested = Some(call);
            }
            if self.heap {
                o.refuse = Refuse::All;
            }
            if o.nested.is_none() && max <= 600 && self.r.chance(1, 24) {
                o.rep = self.show_rep(&o.kind);
            }
            ops.push(o);
            if let Kind::Show { slot, form, w, p, .. } = kind {
                // Again, to a healthy sink.
                let mut o = self.op(Kind::Show { slot, form, w, p, sink: Sink::Ok });
                if self.heap {
                    o.refuse = Refuse::All;
                }
                ops.push(o);
            }
        }
        p.tasks = vec![ops];
    }

    fn builds(&mut self, p: &mut Plan) {
        p.ceiling = 32 << 10;
        let n = self.r.range(1, 4);
        p.sys = (0..n).map(|_| self.spec()).collect();
        let slots = 3;
        let mut lens = vec![None; slots];
        let max = *self.r.pick(&[62, 66, 200]);
        let mut ops = vec![];
        let n = self.r.range(10, 40);
        for _ in 0..n {
            if self.r.chance(2, 3) {
                let sys = self.r.usize(p.sys.len());
                let target = match self.r.below(4) {
                    0 => None,
                    1 | 2 => Some(u128::from(self.r.range(58, 66))),
                    _ => Some(u128::from(self.r.range(20, 300))),
                };
                let (mut call, len) = self.call(&p.sys, sys, &MODES, target);
                call.wrap = Wrap::Direct;
                if len > 4096 {
                    call.v = u128::from(self.r.below(64));
                }
                let slot = if self.r.chance(1, 5) { Some(self.r.usize(slots)) } else { None };
                if let Some(s) = slot {
                    lens[s] = Some(62);
                }
                ops.push(self.op(Kind::Fmt { call, slot }));
            } else {
                // Constructors that take any text must fit both builds.
                self.heap = false;
                let o = self.string_op(&mut lens, max);
                self.heap = true;
                ops.push(o);
            }
        }
        p.tasks = vec![ops];
    }

    fn work(&mut self, p: &mut Plan) {
        p.limit = 30_000_000;
        let n = self.r.range(1, 3);
        p.sys = (0..n).map(|_| self.spec()).collect();
        let mut ops = vec![];
        let n = if self.big { 2 } else { self.r.range(3, 10) };
        for _ in 0..n {
            let sys = self.r.usize(p.sys.len());
            let target = match self.r.below(4) {
                _ if self.big => Some(self.long().into()),
                0 => None,
                1 => Some(u128::from(self.r.range(58, 500))),
                2 => Some(u128::from(self.r.range(500, 20_000))),
                _ => Some(1 << 100),
            };
            let (call, len) = self.call(&p.sys, sys, &MODES, target);
            let mut o = self.op(Kind::Fmt { call, slot: None });
            if self.heap {
                o.refuse = self.refuse(len);
            }
            self.seldom_repeat(p, &mut o, 20);
            ops.push(o);
            self.seldom_sweep(p, 60, &MODES, 200, &mut ops);
        }
        p.tasks = vec![ops];
    }

    fn unwinding(&mut self, p: &mut Plan) {
        let n = self.r.range(1, 3);
        p.sys = (0..n).map(|_| self.callback_spec()).collect();
        if self.r.chance(1, 3) {
            p.sys.push(self.spec());
        }
        let tasks = if self.r.chance(1, 5) { 2 } else { 1 };
        for _ in 0..tasks {
            let mut ops = vec![];
            let n = self.r.range(3, 12);
            for _ in 0..n {
                let sys = self.r.usize(p.sys.len());
                let target = self.target().filter(|&t| t < 300);
                let (mut call, mut len) = self.call(&p.sys, sys, &MODES, target);
                if len > 1000 {
                    call.v = u128::from(self.r.below(60));
                    len = Self::text_len(&p.sys[sys], call.v, call.ty.max());
                }
                let refuse = if self.heap && self.r.chance(1, 4) { self.refuse(len) } else { Refuse::None };
                let mut o = self.op(Kind::Fmt { call, slot: None });
                o.refuse = refuse;
                let mut again = self.op(Kind::Fmt { call, slot: None });
                again.refuse = refuse;
                if model::is_callback(&p.sys[sys]) {
                    // Mostly at a call-out that happens.
                    let k = match self.r.below(3) {
                        0 => self.r.below(6) as u32,
                        1 => self.r.below(2 * len.min(300) as u64 + 8) as u32,
                        _ => self.cb_index(),
                    };
                    o.fault = CbFault::Panic(k);
                    if tasks == 1 {
                        self.seldom_repeat(p, &mut o, 20);
                    }
                    ops.push(o);
                    if self.r.chance(1, 3) {
                        let other = self.any_fmt(p, 0);
                        ops.push(other);
                    }
                }
                ops.push(again);
            }
            p.tasks.push(ops);
        }
        if tasks > 1 {
            self.schedule(p);
        }
    }

    fn collections(&mut self, p: &mut Plan) {
        let n = self.r.range(1, 3);
        p.sys = (0..n).map(|_| self.dig()).collect();
        let tasks = if self.r.chance(1, 3) { self.r.range(2, 3) } else { 1 };
        let growing = self.r.chance(2, 3);
        let n_colls = self.colls as u64;
        for _ in 0..tasks {
            let mut ops = vec![];
            let n = self.r.range(4, 16);
            for _ in 0..n {
                self.seldom_sweep(p, 200, &MODES, 100, &mut ops);
                if growing && self.r.chance(1, 8) {
                    let (coll, by) = self.growth(n_colls);
                    ops.push(self.op(Kind::Grow { coll, by }));
                    continue;
                }
                let sys = self.r.usize(p.sys.len());
                let target = if self.r.chance(1, 3) { Some(u128::from(self.r.range(1, 80))) } else { None };
                let (mut call, mut len) = self.call(&p.sys, sys, &MODES, target);
                // Numbers around the size of the collection.
                if let (Spec::Dig(d), true) = (&p.sys[sys], self.r.chance(1, 3)) {
                    let around = match self.r.below(4) {
                        0 => d.len,
                        1 => d.len.saturating_add(d.len2),
                        2 => d.limit.min(1000),
                        _ => d.len.max(2).saturating_mul(d.len.max(2)),
                    } as u128;
                    call.v = Self::fit((around + u128::from(self.r.below(4))).saturating_sub(2), call.ty.max());
                    len = Self::text_len(&p.sys[sys], call.v, call.ty.max());
                }
                let mut o = self.op(Kind::Fmt { call, slot: None });
                if self.heap && self.r.chance(1, 5) {
                    o.refuse = self.refuse(len);
                }
                if growing && self.r.chance(1, 2) {
                    o.fault = CbFault::Grow(self.cb_index());
                    o.grow = Some(self.growth(n_colls));
                } else if self.r.chance(1, 10) {
                    o.fault = CbFault::Reenter(self.cb_index());
                    let sys = self.r.usize(p.sys.len());
                    let (c, _) = self.call(&p.sys, sys, &MODES, None);
                    o.nested = Some(c);
                } else if tasks == 1 {
                    self.seldom_repeat(p, &mut o, 40);
                }
                ops.push(o);
            }
            p.tasks.push(ops);
        }
        if tasks > 1 {
            self.schedule(p);
        }
    }

    fn growth(&mut self, colls: u64) -> (usize, usize) {
        let by = match self.r.below(3) {
            0 => 1,
            1 => self.r.range(1, 20),
            _ => self.r.range(1, 300),
        };
        if self.r.chance(1, 5) {
            return (sut::FB_GROW, by as usize);
        }
        (self.r.below(colls.max(1)) as usize, by as usize)
    }
}

#[allow(unused)]
const _: Fb = Fb::None;

/// A caller-supplied collection.
pub fn some_dig(seed: u64) -> Spec {
    let mut g = Gen {
        r: Rng::new(mix(seed)),
        prop: String::new(),
        heap: true,
        ids: 0,
        colls: 0,
        big: false,
        vals: vec![],
        last_text: None,
        twins: None,
    };
    g.dig()
}

/// A batch of plain calls to one system (for comparing model and library).
pub fn values(s: &Spec, seed: u64) -> Vec<Call> {
    let mut g = Gen {
        r: Rng::new(seed),
        prop: String::new(),
        heap: true,
        ids: 0,
        colls: 0,
        big: false,
        vals: vec![],
        last_text: None,
        twins: None,
    };
    (0..40)
        .map(|_| {
            let ty = g.ty();
            let target = g.target();
            let v = g.value(s, ty, target);
            let mode = *g.r.pick(&MODES);
            Call { sys: 0, ty, v, mode, wrap: Wrap::Direct }
        })
        .collect()
}
