//! What every system should say, written from the documented rules and not
//! from the library's code.  Texts are kept as runs of (piece, count), so that
//! the length of a text of 10^30 symbols is known without writing it.

use crate::plan::Spec;
use sut::{Fb, Shape, Zh};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Rle(pub Vec<(String, u128)>);

impl Rle {
    pub fn one(s: impl Into<String>) -> Rle {
        Rle(vec![(s.into(), 1)])
    }
    pub fn push(&mut self, s: impl Into<String>, n: u128) {
        if n > 0 {
            self.0.push((s.into(), n));
        }
    }
    pub fn len(&self) -> u128 {
        self.0.iter().fold(0u128, |a, (s, n)| a.saturating_add(n.saturating_mul(s.len() as u128)))
    }
    /// The text, if it is not longer than `max`.
    pub fn text(&self, max: usize) -> Option<String> {
        if self.len() > max as u128 {
            return None;
        }
        let mut o = String::new();
        for (s, n) in &self.0 {
            for _ in 0..*n {
                if s.is_empty() {
                    break;
                }
                o.push_str(s);
            }
        }
        Some(o)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Want {
    Text(Rle),
    NoZero,
    /// Not representable; the bytes a formatter may have produced before it
    /// can tell.
    Oob { partial: u128 },
    /// Not representable, and the rules do not say which error it is.
    AnyError,
}

// ------------------------------------------------------------ digits

#[derive(Clone)]
struct Digits {
    has_zero: bool,
    zero_based: bool,
    fixed: bool,
    digits: Signs,
    fallback: Option<Box<Digits>>,
}

/// Runs of signs: listed ones, and as many of a simulated collection as stated.
#[derive(Clone)]
struct Signs(Vec<(Src, u128)>);

#[derive(Clone)]
enum Src {
    List(Vec<char>),
    Sim(u32),
}

impl Signs {
    fn len(&self) -> u128 {
        self.0.iter().map(|(_, n)| n).sum::<u128>().min(usize::MAX as u128)
    }
    fn truncate(&mut self, n: usize) {
        let mut left = n as u128;
        for (_, n) in &mut self.0 {
            *n = left.min(*n);
            left -= *n;
        }
    }
    fn at(&self, mut i: u128) -> char {
        for (s, n) in &self.0 {
            if i < *n {
                return match s {
                    Src::List(l) => l[i as usize],
                    Src::Sim(first) => sut::sign(*first, i as usize),
                };
            }
            i -= n;
        }
        panic!("no such sign")
    }
    fn sim(first: u32, n: usize) -> Self {
        Signs(vec![(Src::Sim(first), n as u128)])
    }
}

impl FromIterator<char> for Signs {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self {
        let l: Vec<char> = i.into_iter().collect();
        let n = l.len() as u128;
        Signs(vec![(Src::List(l), n)])
    }
}

fn chars(first: u32, n: usize) -> Signs {
    (0..n as u32).map(|i| char::from_u32(first + i).unwrap()).collect()
}

fn positional(d: Signs) -> Digits {
    Digits { has_zero: true, zero_based: true, fixed: false, digits: d, fallback: None }
}

fn alphabetic(d: Signs, zero_based: bool) -> Digits {
    Digits { has_zero: false, zero_based, fixed: false, digits: d, fallback: None }
}

fn cjk() -> Digits {
    positional("〇一二三四五六七八九".chars().collect())
}

impl Digits {
    fn one(mut self) -> Self {
        self.zero_based = false;
        self
    }
    fn limit(mut self, n: usize) -> Self {
        self.digits.truncate(n);
        self
    }
    fn chain(mut self, o: Digits) -> Self {
        self.digits.0.extend(o.digits.0);
        self.fixed = false;
        self.fallback = None;
        self
    }

    fn fmt(&self, v: u128, max: u128) -> Want {
        let n = self.digits.len();
        let from_zero = self.has_zero || self.zero_based;
        let at = |i: u128| Want::Text(Rle::one(self.digits.at(i)));
        if n > max {
            return match (from_zero, v) {
                (true, _) => at(v),
                (false, 0) => Want::NoZero,
                (false, _) => at(v - 1),
            };
        }
        if self.fixed {
            let inside = if from_zero { v < n } else { v <= n };
            if !inside {
                return match &self.fallback {
                    Some(f) if f.digits.len() > 0 => f.fmt(v, max),
                    _ => Want::Oob { partial: 0 },
                };
            }
        }
        if n == 0 {
            return if v == 0 && !from_zero { Want::AnyError } else { Want::Oob { partial: 0 } };
        }
        let mut out = Vec::new();
        if self.has_zero {
            if n == 1 {
                return if v == 0 { at(0) } else { Want::Oob { partial: 0 } };
            }
            let mut v = v;
            loop {
                out.push(self.digits.at(v % n));
                v /= n;
                if v == 0 {
                    break;
                }
            }
        } else {
            // Bijective numeration of v (or of v + 1, which may not exist).
            let mut v = if self.zero_based {
                out.push(self.digits.at(v % n));
                v / n
            } else if v == 0 {
                return Want::NoZero;
            } else {
                v
            };
            if n == 1 {
                let mut r = Rle::default();
                let ones = u128::from(out.len() as u64);
                match v.checked_add(ones) {
                    Some(c) => r.push(self.digits.at(0), c),
                    None => {
                        r.push(self.digits.at(0), v);
                        r.push(self.digits.at(0), ones);
                    }
                }
                return Want::Text(r);
            }
            while v > 0 {
                out.push(self.digits.at((v - 1) % n));
                v = (v - 1) / n;
            }
        }
        out.reverse();
        Want::Text(Rle::one(out.into_iter().collect::<String>()))
    }
}

fn fallback(f: Fb) -> Option<Box<Digits>> {
    Some(Box::new(match f {
        Fb::None => return None,
        Fb::Cjk => cjk(),
        Fb::Tally => alphabetic("|".chars().collect(), false),
        Fb::Empty => alphabetic(String::new().chars().collect(), false),
        Fb::Grow => alphabetic(Signs::sim(0x400, sut::FB_GROW_LEN), true),
        Fb::Letters => alphabetic("vwxyz".chars().collect(), true),
        Fb::Fixed => Digits {
            has_zero: false,
            zero_based: true,
            fixed: true,
            digits: chars(0x2460, 20),
            fallback: Some(Box::new(positional(chars('0' as u32, 10)))),
        },
    }))
}

fn decimal_digits(first: char) -> Digits {
    positional(chars(first as u32, 10))
}

fn named_digits(name: &str) -> Option<Digits> {
    let dec = |c: char| Some(decimal_digits(c));
    let alpha = |s: &str| Some(alphabetic(s.chars().collect(), true));
    let stems = Digits {
        has_zero: false,
        zero_based: false,
        fixed: true,
        digits: "甲乙丙丁戊己庚辛壬癸".chars().collect(),
        fallback: Some(Box::new(cjk())),
    };
    let branches = Digits {
        digits: "子丑寅卯辰巳午未申酉戌亥".chars().collect(),
        ..stems.clone()
    };
    let hex = |a: &str| Some(positional(format!("0123456789{a}").chars().collect()));
    match name {
        "decimal" => dec('0'),
        "eastern-arabic" => dec('\u{660}'),
        "persian" => dec('\u{6F0}'),
        "bengali" => dec('\u{9E6}'),
        "cambodian" => dec('\u{17E0}'),
        "cjk-decimal" => Some(cjk()),
        "cjk-heavenly" => Some(stems),
        "cjk-earthly" => Some(branches),
        "devanagari" => dec('\u{966}'),
        "gujarati" => dec('\u{AE6}'),
        "gurmukhi" => dec('\u{A66}'),
        "kannada" => dec('\u{CE6}'),
        "lao" => dec('\u{ED0}'),
        "malayalam" => dec('\u{D66}'),
        "mongolian" => dec('\u{1810}'),
        "myanmar" => dec('\u{1040}'),
        "oriya" => dec('\u{B66}'),
        "tamil" => dec('\u{BE6}'),
        "telugu" => dec('\u{C66}'),
        "thai" => dec('\u{E50}'),
        "tibetan" => dec('\u{F20}'),
        "letter-upper" => alpha("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
        "letter-lower" => alpha("abcdefghijklmnopqrstuvwxyz"),
        "letter-lower-one" => named_digits("letter-lower").map(Digits::one),
        "greek-upper" => alpha("ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ"),
        "greek-lower" => alpha("αβγδεζηθικλμνξοπρστυφχψω"),
        "greek-lower-one" => named_digits("greek-lower").map(Digits::one),
        "hiragana" => alpha("あいうえおかきくけこさしすせそたちつてとなにぬねのはひふへほまみむめもやゆよらりるれろわをん"),
        "hiragana-iroha" => alpha("いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす"),
        "katakana" => alpha("アイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワヲン"),
        "katakana-iroha" => alpha("イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス"),
        "hangeul-jamo" => alpha("ㄱㄴㄷㄹㅁㅂㅅㅇㅈㅊㅋㅌㅍㅎ"),
        "hangeul-syllable" => alpha("가나다라마바사아자차카타파하"),
        "hangeul-syllable-one" => named_digits("hangeul-syllable").map(Digits::one),
        "hex-upper" => hex("ABCDEF"),
        "hex-lower" => hex("abcdef"),
        "heavenly-restrict" | "heavenly-restrict-one" => Some(stems.limit(7)),
        "heavenly-chain" => Some(stems.chain(branches)),
        "digits-300" => Some(positional(chars(0x4E00, 300))),
        "letters-300" => Some(alphabetic(chars(0x4E00, 300), true)),
        "letters-300-one" => Some(alphabetic(chars(0x4E00, 300), false)),
        "digits-256" => Some(positional(chars(0x4E00, 256))),
        "letters-255-one" => Some(alphabetic(chars(0x4E00, 255), false)),
        "binary" => Some(positional("01".chars().collect())),
        "binary-wide" => Some(positional("\u{1F311}\u{1F315}".chars().collect())),
        "dice" => alpha("⚀⚁⚂⚃⚄⚅"),
        "tally" => alpha("|"),
        "tally-one" => alpha("|").map(Digits::one),
        "tally-wide-one" => alpha("𝍷").map(Digits::one),
        "only-zero" => Some(positional("0".chars().collect())),
        "empty" | "none" => alpha(""),
        "empty-zero" => Some(positional("".chars().collect())),
        "empty-one" => alpha("").map(Digits::one),
        _ => None,
    }
}

// ------------------------------------------------------------ additive

fn greedy(units: &[(String, u128)], zero: Option<&str>, v: u128) -> Want {
    if v == 0 {
        return zero.map_or(Want::NoZero, |z| Want::Text(Rle::one(z)));
    }
    let mut r = Rle::default();
    let mut rest = v;
    for (s, u) in units {
        if *u == 0 {
            break;
        }
        r.push(s.clone(), rest / u);
        rest %= u;
    }
    if rest == 0 {
        Want::Text(r)
    } else {
        Want::Oob { partial: r.len() }
    }
}

fn units(x: &[(&str, u128)]) -> Vec<(String, u128)> {
    x.iter().map(|(s, v)| ((*s).to_string(), *v)).collect()
}

/// Roman: each decimal place in turn, with an overline from 4000 up.
fn roman(v: u128, upper: bool) -> Want {
    if v == 0 {
        return Want::Text(Rle::one(if upper { "N" } else { "n" }));
    }
    let sign = |s: &str, bar: bool| -> String {
        let s = if upper { s.to_uppercase() } else { s.to_string() };
        if bar {
            s.chars().flat_map(|c| [c, '\u{305}']).collect()
        } else {
            s
        }
    };
    let mut r = Rle::default();
    r.push(sign("m", true), v / 1_000_000);
    // From 4000 up, thousands take an overline; a digit of one to three
    // thousand, or what five or so leaves of it, is still written m.
    let k = v % 1_000_000;
    let unit = k / 1000 % 10;
    let keep = match unit {
        0..=3 => 0,
        5..=8 => 5,
        _ => unit,
    };
    let hi = k / 10_000 * 10 + keep;
    let lo = k - hi * 1000;
    let place = |r: &mut Rle, d: u128, one: &str, five: &str, ten: &str, bar: bool| match d {
        9 => r.push(sign(one, bar) + &sign(ten, bar), 1),
        4 => r.push(sign(one, bar) + &sign(five, bar), 1),
        d => {
            r.push(sign(five, bar), d / 5);
            r.push(sign(one, bar), d % 5);
        }
    };
    place(&mut r, hi / 100, "c", "d", "m", true);
    place(&mut r, hi / 10 % 10, "x", "l", "c", true);
    place(&mut r, hi % 10, "i", "v", "x", true);
    r.push(sign("m", false), lo / 1000);
    place(&mut r, lo / 100 % 10, "c", "d", "m", false);
    place(&mut r, lo / 10 % 10, "x", "l", "c", false);
    place(&mut r, lo % 10, "i", "v", "x", false);
    Want::Text(r)
}

/// Alphabetic numerals: 36 letters for 1..9, 10..90, 100..900, 1000..9000.
fn letters36(v: u128, letters: &str, extra: Option<(&str, u128)>) -> Want {
    let l: Vec<char> = letters.chars().collect();
    assert_eq!(l.len(), 36);
    if v == 0 {
        return Want::NoZero;
    }
    let mut r = Rle::default();
    let mut v = v;
    if let Some((s, u)) = extra {
        r.push(s, v / u);
        v %= u;
    }
    // Above the largest sign it is repeated.
    r.push(l[35], v / 9000);
    v %= 9000;
    for p in (0..4u32).rev() {
        let d = v / 10u128.pow(p) % 10;
        if d > 0 {
            r.push(l[p as usize * 9 + d as usize - 1], 1);
        }
    }
    Want::Text(r)
}

/// Han numerals up to the thousands, the largest repeated above that.
fn han(v: u128, digits: &str, places: [&str; 4], omit_one: bool) -> Want {
    let d: Vec<char> = digits.chars().collect();
    if v == 0 {
        return Want::Text(Rle::one(d[0]));
    }
    let unit = |n: u128, p: usize| -> String {
        if n == 1 && p > 0 && omit_one {
            places[p].to_string()
        } else {
            format!("{}{}", d[n as usize], places[p])
        }
    };
    let mut r = Rle::default();
    r.push(unit(9, 3), v / 9000);
    let v = v % 9000;
    for p in (0..4usize).rev() {
        let n = v / 10u128.pow(p as u32) % 10;
        if n > 0 {
            r.push(unit(n, p), 1);
        }
    }
    Want::Text(r)
}

fn hebrew(v: u128) -> Want {
    if v == 0 {
        return Want::NoZero;
    }
    let ones: Vec<char> = "אבגדהוזחט".chars().collect();
    let tens: Vec<char> = "יכלמנסעפצ".chars().collect();
    let single = (v < 10) || (v < 100 && v % 10 == 0) || v == 100 || v == 200 || v == 300 || v == 400;
    let mut r = Rle::default();
    if single {
        r.push("׳", 1);
    }
    r.push("ת", v / 400);
    let rest = v % 400;
    match rest / 100 {
        1 => r.push("ק", 1),
        2 => r.push("ר", 1),
        3 => r.push("ש", 1),
        _ => {}
    }
    match rest % 100 {
        15 => r.push("ט״ו", 1),
        16 => r.push("ט״ז", 1),
        x => {
            if x >= 10 {
                r.push(tens[(x / 10 - 1) as usize], 1);
            }
            if x % 10 > 0 {
                r.push(ones[(x % 10 - 1) as usize], 1);
            }
        }
    }
    if single {
        r.push("״", 1);
    }
    Want::Text(r)
}

/// The algorithm of CSS Counter Styles, on the decimal digits.
fn ethiopic(v: u128) -> Want {
    if v == 0 {
        return Want::NoZero;
    }
    if v == 1 {
        return Want::Text(Rle::one('\u{1369}'));
    }
    let mut groups = Vec::new();
    let mut x = v;
    while x > 0 {
        groups.push(x % 100);
        x /= 100;
    }
    let top = groups.len() - 1;
    let mut s = String::new();
    for (i, &g) in groups.iter().enumerate().rev() {
        let odd = i % 2 == 1;
        let drop = g == 0 || (g == 1 && (i == top || odd));
        // The most significant group of value 1 is only dropped with a
        // separator after it, which all groups but the last have.
        let drop = drop && !(i == 0 && g == 1);
        if !drop {
            if g >= 10 {
                s.push(char::from_u32(0x1371 + (g / 10) as u32).unwrap());
            }
            if g % 10 > 0 {
                s.push(char::from_u32(0x1368 + (g % 10) as u32).unwrap());
            }
        }
        if i > 0 {
            if odd {
                if g != 0 {
                    s.push('\u{137B}');
                }
            } else {
                s.push('\u{137C}');
            }
        }
    }
    Want::Text(Rle::one(s))
}

fn chinese(z: Zh, v: u128) -> Want {
    let ordinary = ["零一二三四五六七八九十百千"; 2];
    let financial = ["零壹贰叁肆伍陆柒捌玖拾佰仟", "零壹貳參肆伍陸柒捌玖拾佰仟"];
    let large = ["万亿兆京垓秭穰沟涧正载", "萬億兆京垓秭穰溝澗正載"];
    let t = usize::from(z.traditional);
    let small: Vec<char> = if z.financial { financial[t] } else { ordinary[t] }.chars().collect();
    let large: Vec<char> = large[t].chars().collect();
    if v == 0 {
        return Want::Text(Rle::one(small[0]));
    }
    let digits: Vec<u32> = {
        let mut d = vec![];
        let mut x = v;
        while x > 0 {
            d.push((x % 10) as u32);
            x /= 10;
        }
        d
    };
    let short = z.scale == 0;
    if short && v >= 10u128.pow(15) {
        return Want::Oob { partial: 45 * 2 };
    }
    let exps: &[u32] = match z.scale {
        0 => &[],
        1 => &[4, 8, 12, 16, 20, 24, 28, 32, 36],
        2 => &[4, 8, 16, 24, 32],
        _ => &[4, 8, 16, 32],
    };
    // A zero marks skipped digits between two that are written. Across a unit's
    // name, only the leading zeros of the number before the next unit count.
    let zero_between = |q: usize, p: usize| -> bool {
        let mut lo = 0;
        while let Some(&e) = exps.iter().rev().find(|&&e| e as usize + lo <= q) {
            lo += e as usize;
            if p < lo {
                return p + 1 != lo;
            }
        }
        q - p > 1
    };
    let mut s = String::new();
    let mut last: Option<usize> = None;
    let mut digit = |s: &mut String, p: usize| {
        let d = digits[p];
        if let Some(q) = last {
            if zero_between(q, p) {
                s.push(small[0]);
            }
        }
        let unit = if short && p >= 4 {
            Some(large[p - 4])
        } else {
            [None, Some(small[10]), Some(small[11]), Some(small[12])][p % 4]
        };
        let lone_ten = !z.formal
            && d == 1
            && last.is_none()
            && p + 1 == digits.len()
            && (if short { p == 1 } else { p % 4 == 1 });
        if !lone_ten {
            s.push(small[d as usize]);
        }
        if let Some(u) = unit {
            s.push(u);
        }
        last = Some(p);
    };
    // The digits at positions lo..hi, and the names of the units they are
    // multiples of.
    fn block(
        lo: usize,
        hi: usize,
        digits: &[u32],
        exps: &[u32],
        s: &mut String,
        digit: &mut dyn FnMut(&mut String, usize),
        large: &[char],
    ) {
        let top = (lo..hi.min(digits.len())).rev().find(|&p| digits[p] != 0);
        let Some(top) = top else { return };
        match exps.iter().rposition(|&e| e as usize + lo <= top) {
            Some(i) => {
                let mid = lo + exps[i] as usize;
                block(mid, hi, digits, exps, s, digit, large);
                s.push(large[i]);
                block(lo, mid, digits, exps, s, digit, large);
            }
            None => {
                for p in (lo..=top).rev() {
                    if digits[p] != 0 {
                        digit(s, p);
                    }
                }
            }
        }
    }
    block(0, digits.len(), &digits, exps, &mut s, &mut digit, &large);
    Want::Text(Rle::one(s))
}

fn enumerated(symbols: &[&str], v: u128, zero: bool) -> Want {
    let i = if zero {
        v
    } else if v == 0 {
        return Want::NoZero;
    } else {
        v - 1
    };
    match usize::try_from(i).ok().and_then(|i| symbols.get(i)) {
        Some(s) => Want::Text(Rle::one(*s)),
        None => Want::Oob { partial: 0 },
    }
}

fn named(name: &str, v: u128) -> Want {
    let [a62, a63, a200, a300, a31] = sut::long_texts();
    match name {
        "roman-lower" => roman(v, false),
        "roman-upper" => roman(v, true),
        "armenian-upper" => letters36(v, "ԱԲԳԴԵԶԷԸԹԺԻԼԽԾԿՀՁՂՃՄՅՆՇՈՉՊՋՌՍՎՏՐՑՒՓՔ", None),
        "armenian-lower" => letters36(v, "աբգդեզէըթժիլխծկհձղճմյնշոչպջռսվտրցւփք", None),
        "georgian" => letters36(v, "აბგდევზჱთიკლმნჲოპჟრსტჳფქღყშჩცძწჭხჴჯჰ", Some(("ჵ", 10_000))),
        "japanese-formal" => han(v, "零壱弐参四伍六七八九", ["", "拾", "百", "阡"], false),
        "japanese-informal" => han(v, "〇一二三四五六七八九", ["", "十", "百", "千"], true),
        "hangeul-formal" => han(v, "영일이삼사오육칠팔구", ["", "십", "백", "천"], false),
        "hanja-informal" => han(v, "零一二三四五六七八九", ["", "十", "百", "千"], true),
        "hanja-formal" => han(v, "零壹貳參四五六七八九", ["", "拾", "百", "仟"], false),
        "hebrew" => hebrew(v),
        "ethiopic" => ethiopic(v),
        "circled" => {
            let c: Vec<String> = "⓪①②③④⑤⑥⑦⑧⑨⑩⑪⑫⑬⑭⑮⑯⑰⑱⑲⑳㉑㉒㉓㉔㉕㉖㉗㉘㉙㉚㉛㉜㉝㉞㉟㊱㊲㊳㊴㊵㊶㊷㊸㊹㊺㊻㊼㊽㊾㊿"
                .chars()
                .map(String::from)
                .collect();
            let c: Vec<&str> = c.iter().map(String::as_str).collect();
            enumerated(&c, v, true)
        }
        "double-circled" => {
            enumerated(&["⓵", "⓶", "⓷", "⓸", "⓹", "⓺", "⓻", "⓼", "⓽", "⓾"], v, false)
        }
        "enum-long" => enumerated(&[a62, a63, a200, "", "x", a300], v, true),
        "enum-long-one" => enumerated(&[a63, a62, a31, a300, a200], v, false),
        "enum-none" => enumerated(&[], v, true),
        "enum-none-one" => enumerated(&[], v, false),
        "add-long-zero" => greedy(&units(&[("ab", 5), ("c", 1)]), Some(a63), v),
        "add-fit-zero" => greedy(&units(&[("ab", 5), ("c", 1)]), Some(a62), v),
        "add-huge-zero" => greedy(&units(&[("𝍷", 1)]), Some(a300), v),
        "add-long" => greedy(&units(&[(a62, 1000), (a31, 100), ("é", 10), ("|", 1)]), None, v),
        "add-longer" => greedy(&units(&[(a200, 10_000), (a63, 7), ("1", 1)]), None, v),
        "add-gap" => greedy(&units(&[("M", 1000), ("C", 100), ("X", 10)]), None, v),
        "add-gap2" => greedy(&units(&[("七", 7), ("三", 3)]), None, v),
        "add-tally" => greedy(&units(&[("|", 1)]), None, v),
        "add-big" => {
            greedy(&units(&[("G", 1 << 100), ("L", 1 << 40), ("S", 300), ("u", 1)]), None, v)
        }
        "add-silent" => greedy(&units(&[("G", 1 << 100), ("", 1000), ("u", 1)]), None, v),
        "add-silent-one" => greedy(&units(&[("", 1)]), Some("零"), v),
        "add-empty" => greedy(&[], None, v),
        "add-zero-only" => greedy(&[], Some("o"), v),
        "user" => {
            if v % 7 == 3 {
                Want::Oob { partial: 0 }
            } else {
                Want::Text(Rle::one(pad_user(format!("[{v}]"))))
            }
        }
        _ => panic!("no model of {name}"),
    }
}

fn pad_user(mut s: String) -> String {
    while s.len() < 40 {
        s.push('.');
    }
    s
}

fn spec_digits(s: &Spec) -> Option<Digits> {
    match s {
        Spec::Named(n) => named_digits(n),
        Spec::Zh(_) => None,
        Spec::Dig(d) => {
            let a = Digits {
                has_zero: d.has_zero,
                zero_based: d.zero_based,
                fixed: d.fixed,
                digits: Signs::sim(d.first, d.len),
                fallback: fallback(d.fb),
            };
            let b = alphabetic(Signs::sim(d.first + 400, d.len2), true);
            let dec = decimal_digits('0');
            Some(match d.shape {
                Shape::Plain => a,
                Shape::One => a.one(),
                Shape::Restrict => a.limit(d.limit),
                Shape::Chain => a.chain(b),
                Shape::OneChain => a.chain(b).one(),
                Shape::RestrictChain => a.chain(b).limit(d.limit),
                Shape::RestrictOne => a.one().limit(d.limit),
                Shape::ChainDecimal => a.chain(dec),
                Shape::DecimalChain => dec.chain(a),
                Shape::OneRestrict => a.limit(d.limit).one(),
                Shape::ChainOne => a.one().chain(b),
                Shape::ChainRestrict => a.limit(d.limit).chain(b),
                Shape::ChainChain => b.chain(a).chain(dec),
            })
        }
    }
}

/// What formatting `v`, of a type with maximum `max`, should give.
pub fn want(s: &Spec, v: u128, max: u128) -> Want {
    if let Some(d) = spec_digits(s) {
        return d.fmt(v, max);
    }
    match s {
        Spec::Named(n) => named(n, v),
        Spec::Zh(z) => chinese(*z, v),
        Spec::Dig(_) => unreachable!(),
    }
}

/// What the infallible call gives when the system answers.
pub fn want_infallible(s: &Spec, v: u128, max: u128) -> Rle {
    if *s == Spec::Named("user") {
        return Rle::one(pad_user(format!("<{v}>")));
    }
    match want(s, v, max) {
        Want::Text(r) => r,
        _ => Rle::one(v.to_string()),
    }
}

/// The largest value one symbol of the system stands for, to build values with
/// an interesting structure from.
pub fn unit(s: &Spec) -> u128 {
    match s {
        Spec::Named(n) => match *n {
            "roman-lower" | "roman-upper" => 1_000_000,
            "armenian-upper" | "armenian-lower" => 9000,
            "japanese-formal" | "japanese-informal" | "hangeul-formal" | "hanja-informal"
            | "hanja-formal" => 9000,
            "georgian" => 10_000,
            "hebrew" => 400,
            "add-long" | "add-gap" | "add-silent" => 1000,
            "add-longer" => 10_000,
            "add-long-zero" | "add-fit-zero" => 5,
            "add-gap2" => 7,
            "add-big" => 1 << 40,
            "ethiopic" => 10_000,
            _ => spec_digits(s).map_or(1, |d| d.digits.len().max(1)),
        },
        Spec::Zh(_) => 10_000,
        Spec::Dig(d) => d.len.max(1) as u128,
    }
}

pub fn is_callback(s: &Spec) -> bool {
    matches!(s, Spec::Dig(_) | Spec::Named("user"))
}
