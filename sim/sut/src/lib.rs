//! The library under test as the simulator sees it: every entry point the
//! simulator uses is instantiated here, in an instrumented crate, and the
//! caller-supplied parts (collections, systems) live here too.
#![allow(static_mut_refs)]

pub use nominals;

use core::fmt::{self, Display, Write};
use nominals::*;
use simcore::{call_out, cur, fatal, lib, lib_catch, outside};

mod strings;
pub use strings::*;

// ------------------------------------------------------------ integer types

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
}

pub const TYS: [Ty; 6] = [Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::Usize];

impl Ty {
    pub fn max(self) -> u128 {
        match self {
            Ty::U8 => u8::MAX.into(),
            Ty::U16 => u16::MAX.into(),
            Ty::U32 => u32::MAX.into(),
            Ty::U64 => u64::MAX.into(),
            Ty::U128 => u128::MAX,
            Ty::Usize => usize::MAX as u128,
        }
    }
}

pub trait Num: Nominal + fmt::Debug + TryFrom<u128> + TryFrom<u32> + 'static {
    fn of(v: u128) -> Self;
    fn up(self) -> u128;
}

macro_rules! num {
    ($($t:ident)*) => {$(impl Num for $t {
        fn of(v: u128) -> Self { v as $t }
        fn up(self) -> u128 { self as u128 }
    })*};
}
num!(u8 u16 u32 u64 u128 usize);

// ------------------------------------------------------------ formatting

/// Which public entry point a call uses.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// `system.try_format_nominal(v)`
    Try,
    /// `v.try_to_nominal(&system)`
    TryTo,
    /// `system.format_nominal(v)`
    Format,
    /// `v.to_nominal(&system)`
    To,
    /// `try_format_nominal(v).unwrap_or_decimal()`
    Unwrap,
    /// `try_format_nominal(v)`, and `into_decimal()` on its error
    IntoDecimal,
}

pub const MODES: [Mode; 6] =
    [Mode::Try, Mode::TryTo, Mode::Format, Mode::To, Mode::Unwrap, Mode::IntoDecimal];

impl Mode {
    pub fn fallible(self) -> bool {
        matches!(self, Mode::Try | Mode::TryTo)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Wrap {
    Direct,
    Box,
    Rc,
    Arc,
}

pub const WRAPS: [Wrap; 4] = [Wrap::Direct, Wrap::Box, Wrap::Rc, Wrap::Arc];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Failed {
    NoZeroSymbol,
    OutOfMemory(u128),
    OutOfBounds(u128),
    Unknown,
}

pub type Res = Result<NominalString, Failed>;
pub type Caught = Result<Res, Box<dyn std::any::Any + Send>>;

fn conv<T: Num>(r: Result<NominalString, Error<T>>) -> Res {
    r.map_err(|e| match e {
        Error::NoZeroSymbol => Failed::NoZeroSymbol,
        Error::OutOfMemory(n) => Failed::OutOfMemory(n.up()),
        Error::OutOfBounds(n) => Failed::OutOfBounds(n.up()),
        _ => Failed::Unknown,
    })
}

/// A handle on a shared system that can be put in a `Box<dyn NominalSystem>`.
#[cfg(feature = "heap")]
struct Fwd<S: ?Sized>(*const S);

#[cfg(feature = "heap")]
impl<T: Num, S: NominalSystem<T> + ?Sized> NominalSystem<T> for Fwd<S> {
    fn format_nominal(&self, n: T) -> NominalString {
        unsafe { &*self.0 }.format_nominal(n)
    }
    fn try_format_nominal(&self, n: T) -> Result<NominalString, Error<T>> {
        unsafe { &*self.0 }.try_format_nominal(n)
    }
}

#[inline(never)]
fn call<T: Num, S: NominalSystem<T>>(s: &S, v: T, mode: Mode) -> Caught {
    match mode {
        Mode::Try => lib_catch(|| s.try_format_nominal(v)).map(conv),
        Mode::TryTo => lib_catch(|| v.try_to_nominal(s)).map(conv),
        Mode::Format => lib_catch(|| s.format_nominal(v)).map(Ok),
        Mode::To => lib_catch(|| v.to_nominal(s)).map(Ok),
        Mode::Unwrap => lib_catch(|| s.try_format_nominal(v).unwrap_or_decimal()).map(Ok),
        Mode::IntoDecimal => lib_catch(|| match s.try_format_nominal(v) {
            Ok(s) => s,
            Err(e) => e.into_decimal(),
        })
        .map(Ok),
    }
}

#[inline(never)]
fn wrapped<T: Num, S: NominalSystem<T> + 'static>(s: &'static S, v: T, mode: Mode, wrap: Wrap) -> Caught {
    match wrap {
        #[cfg(feature = "heap")]
        Wrap::Box => {
            let b: Box<dyn NominalSystem<T>> = Box::new(Fwd(s));
            call(&b, v, mode)
        }
        #[cfg(feature = "heap")]
        Wrap::Rc => {
            let b: std::rc::Rc<dyn NominalSystem<T>> = std::rc::Rc::new(Fwd(s));
            call(&b, v, mode)
        }
        #[cfg(feature = "heap")]
        Wrap::Arc => {
            let b: std::sync::Arc<dyn NominalSystem<T>> = std::sync::Arc::new(Fwd(s));
            call(&b, v, mode)
        }
        _ => call(s, v, mode),
    }
}

/// A system shared by all callers of a run.
pub trait AnySys {
    fn fmt(&'static self, ty: Ty, v: u128, mode: Mode, wrap: Wrap) -> Caught;
}

pub struct Holder<S>(pub S);

impl<S> AnySys for Holder<S>
where
    S: NominalSystem<u8>
        + NominalSystem<u16>
        + NominalSystem<u32>
        + NominalSystem<u64>
        + NominalSystem<u128>
        + NominalSystem<usize>
        + 'static,
{
    fn fmt(&'static self, ty: Ty, v: u128, mode: Mode, wrap: Wrap) -> Caught {
        match ty {
            Ty::U8 => wrapped(&self.0, v as u8, mode, wrap),
            Ty::U16 => wrapped(&self.0, v as u16, mode, wrap),
            Ty::U32 => wrapped(&self.0, v as u32, mode, wrap),
            Ty::U64 => wrapped(&self.0, v as u64, mode, wrap),
            Ty::U128 => wrapped(&self.0, v, mode, wrap),
            Ty::Usize => wrapped(&self.0, v as usize, mode, wrap),
        }
    }
}

fn hold<S>(s: S) -> Box<dyn AnySys>
where
    Holder<S>: AnySys + 'static,
{
    Box::new(Holder(s))
}

// ------------------------------------------------- caller-supplied collections

/// A digit collection written by a caller: every request the library makes
/// leaves the library, can be preempted, can panic, call back in, or make the
/// collection longer.
pub struct SimDigits<F> {
    pub id: usize,
    pub has_zero: bool,
    pub zero_based: bool,
    pub fixed: bool,
    pub first: u32,
    _f: core::marker::PhantomData<F>,
}

/// The lengths of the run's collections (callers may make them longer).
pub static mut LENS: [usize; 9] = [0; 9];
/// The one the fallback `FbGrow` has, and what it starts with.
pub const FB_GROW: usize = 8;
pub const FB_GROW_LEN: usize = 3;

impl<F: DigitCollection + Default> DigitCollection for SimDigits<F> {
    type Fallback = F;

    fn fixed(&self) -> bool {
        call_out();
        self.fixed
    }

    fn has_zero_digit(&self) -> bool {
        call_out();
        self.has_zero
    }

    fn zero_based(&self) -> bool {
        call_out();
        self.zero_based
    }

    fn len(&self) -> usize {
        call_out();
        outside(|| unsafe {
            cur().f.cur_len[self.id] = LENS[self.id];
            LENS[self.id]
        })
    }

    fn digit(&self, index: usize) -> char {
        call_out();
        outside(|| {
            let told = cur().f.cur_len[self.id].min(unsafe { LENS[self.id] });
            if index >= told {
                fatal(&format!("digit: a collection of {told} digits was asked for digit {index}"));
            }
            sign(self.first, index)
        })
    }
}

/// The sign a simulated collection has at a place: its own up to 400 signs,
/// then the same again.  Those of the collections 1 and 401 take one to four
/// bytes.
pub fn sign(first: u32, index: usize) -> char {
    let i = (index % 400) as u32;
    let c = match first {
        1 | 401 => [0x61, 0x3B1, 0x4E00, 0x1F000][i as usize % 4] + i / 4 % 26,
        _ => first + i,
    };
    char::from_u32(c).unwrap()
}

/// Making a fallback is the caller's code, too.
macro_rules! made_by_caller {
    ($name:ident) => {
        impl Default for $name {
            fn default() -> Self {
                call_out();
                $name
            }
        }
    };
}

/// A fallback callers may make longer.
pub struct FbGrow;
made_by_caller!(FbGrow);

impl DigitCollection for FbGrow {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        call_out();
        false
    }
    fn len(&self) -> usize {
        call_out();
        outside(|| unsafe {
            cur().f.cur_len[FB_GROW] = LENS[FB_GROW];
            LENS[FB_GROW]
        })
    }
    fn digit(&self, index: usize) -> char {
        call_out();
        outside(|| {
            let told = cur().f.cur_len[FB_GROW].min(unsafe { LENS[FB_GROW] });
            if index >= told {
                fatal(&format!("digit: a fallback of {told} digits was asked for digit {index}"));
            }
            sign(0x400, index)
        })
    }
}

/// A fallback written by a caller: five letters, alphabetic.
pub struct FbLetters;
made_by_caller!(FbLetters);

impl DigitCollection for FbLetters {
    type Fallback = NoFallback;
    fn has_zero_digit(&self) -> bool {
        call_out();
        false
    }
    fn len(&self) -> usize {
        call_out();
        5
    }
    fn digit(&self, index: usize) -> char {
        call_out();
        outside(|| {
            if index >= 5 {
                fatal(&format!("digit: a fallback of 5 digits was asked for digit {index}"));
            }
            ['v', 'w', 'x', 'y', 'z'][index]
        })
    }
}

/// A fallback that is itself fixed: twenty signs, then decimal.
pub struct FbFixed;
made_by_caller!(FbFixed);

impl DigitCollection for FbFixed {
    type Fallback = Decimal;
    fn fixed(&self) -> bool {
        call_out();
        true
    }
    fn has_zero_digit(&self) -> bool {
        call_out();
        false
    }
    fn len(&self) -> usize {
        call_out();
        20
    }
    fn digit(&self, index: usize) -> char {
        call_out();
        outside(|| {
            if index >= 20 {
                fatal(&format!("digit: a fallback of 20 digits was asked for digit {index}"));
            }
            char::from_u32(0x2460 + index as u32).unwrap()
        })
    }
}

/// Fallbacks of one sign, and of none.
macro_rules! small_fallback {
    ($name:ident $n:expr) => {
        pub struct $name;
        made_by_caller!($name);

        impl DigitCollection for $name {
            type Fallback = FbLetters;
            fn has_zero_digit(&self) -> bool {
                call_out();
                false
            }
            fn zero_based(&self) -> bool {
                call_out();
                false
            }
            fn len(&self) -> usize {
                call_out();
                $n
            }
            #[allow(unused_comparisons)]
            fn digit(&self, index: usize) -> char {
                call_out();
                outside(|| {
                    if index >= $n {
                        fatal(&format!("digit: a fallback of {} digits was asked for digit {index}", $n));
                    }
                    '|'
                })
            }
        }
    };
}
small_fallback!(FbTally 1);
small_fallback!(FbEmpty 0);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fb {
    None,
    Cjk,
    Letters,
    Fixed,
    Tally,
    Empty,
    Grow,
}
pub const FBS: [Fb; 7] = [Fb::None, Fb::Cjk, Fb::Letters, Fb::Fixed, Fb::Tally, Fb::Empty, Fb::Grow];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Shape {
    Plain,
    One,
    Restrict,
    Chain,
    OneChain,
    RestrictChain,
    RestrictOne,
    ChainDecimal,
    DecimalChain,
    OneRestrict,
    ChainOne,
    ChainRestrict,
    ChainChain,
}
pub const SHAPES: [Shape; 13] = [
    Shape::Plain,
    Shape::One,
    Shape::Restrict,
    Shape::Chain,
    Shape::OneChain,
    Shape::RestrictChain,
    Shape::RestrictOne,
    Shape::ChainDecimal,
    Shape::DecimalChain,
    Shape::OneRestrict,
    Shape::ChainOne,
    Shape::ChainRestrict,
    Shape::ChainChain,
];

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct DigSpec {
    pub shape: Shape,
    pub fb: Fb,
    /// Indices into LENS of this collection and, when chained, the second.
    pub id: usize,
    pub id2: usize,
    pub len: usize,
    pub len2: usize,
    pub limit: usize,
    pub has_zero: bool,
    pub zero_based: bool,
    pub fixed: bool,
    pub first: u32,
}

fn digits<F: DigitCollection + Default + 'static>(d: &DigSpec) -> Box<dyn AnySys> {
    let a = SimDigits::<F> {
        id: d.id,
        has_zero: d.has_zero,
        zero_based: d.zero_based,
        fixed: d.fixed,
        first: d.first,
        _f: core::marker::PhantomData,
    };
    let b = SimDigits::<NoFallback> {
        id: d.id2,
        has_zero: false,
        zero_based: true,
        fixed: false,
        first: d.first + 400,
        _f: core::marker::PhantomData,
    };
    match d.shape {
        Shape::Plain => hold(a),
        Shape::One => hold(a.one_based()),
        Shape::Restrict => hold(Restrict::new(d.limit, a)),
        Shape::Chain => hold(a.and(b)),
        Shape::OneChain => hold(a.and(b).one_based()),
        Shape::RestrictChain => hold(Restrict::new(d.limit, Chain::new(a, b))),
        Shape::RestrictOne => hold(Restrict::new(d.limit, OneBased::new(a))),
        Shape::ChainDecimal => hold(a.and(Decimal)),
        Shape::DecimalChain => hold(Decimal.and(a)),
        Shape::OneRestrict => hold(Restrict::new(d.limit, a).one_based()),
        Shape::ChainOne => hold(a.one_based().and(b)),
        Shape::ChainRestrict => hold(Restrict::new(d.limit, a).and(b)),
        Shape::ChainChain => hold(b.and(a).and(Decimal)),
    }
}

// ------------------------------------------------- caller-supplied systems

/// A system written by a caller: the number in brackets, built step by step
/// with the library's string, and with its own infallible form.
pub struct UserSys;

impl<T: Num> NominalSystem<T> for UserSys {
    fn format_nominal(&self, nominal: T) -> NominalString {
        call_out();
        match build(b'<', b'>', nominal) {
            Ok(s) => s,
            Err(_) => NominalString::from('!'),
        }
    }

    fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
        call_out();
        if nominal.up() % 7 == 3 {
            return Err(Error::OutOfBounds(nominal));
        }
        build(b'[', b']', nominal).with_nominal(nominal)
    }
}

fn build<T: Num>(open: u8, shut: u8, n: T) -> Result<NominalString, OutOfMemoryError> {
    let mut s = NominalString::new_reverse();
    s.try_push(char::from(shut))?;
    let mut n = n.up();
    loop {
        call_out();
        s.try_push_front(char::from(b'0' + (n % 10) as u8))?;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    s.try_push_front(char::from(open))?;
    // As many dots at the end as needed to reach 40 bytes.
    while s.len() < 40 {
        s.try_push('.')?;
    }
    Ok(s)
}

// ------------------------------------------------- the systems by name

macro_rules! zoo {
    ($($name:literal => $e:expr,)*) => {
        pub const NAMED: &[&str] = &[$($name),*];
        pub fn named(name: &str) -> Box<dyn AnySys> {
            match name {
                $($name => hold($e),)*
                _ => panic!("no system {name}"),
            }
        }
    };
}

const A62: &str = "aBcDeFgHiJkLmNoPqRsTuVwXyZaBcDeFgHiJkLmNoPqRsTuVwXyZaBcDeFgHiJ";
const A63: &str = "aBcDeFgHiJkLmNoPqRsTuVwXyZaBcDeFgHiJkLmNoPqRsTuVwXyZaBcDeFgHiJk";
const A200: &str = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678é";
const A300: &str = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmn";
const A31: &str = "ααααααααααααααα.";

pub fn long_texts() -> [&'static str; 5] {
    assert!(A62.len() == 62 && A63.len() == 63 && A200.len() == 201 && A300.len() == 300 && A31.len() == 31);
    [A62, A63, A200, A300, A31]
}

const WIDE: [char; 300] = {
    let mut a = ['\0'; 300];
    let mut i = 0;
    while i < 300 {
        a[i] = match char::from_u32(0x4E00 + i as u32) {
            Some(c) => c,
            None => panic!(),
        };
        i += 1;
    }
    a
};

zoo! {
    "decimal" => Decimal,
    "eastern-arabic" => EasternArabic,
    "persian" => Persian,
    "bengali" => Bengali,
    "cambodian" => Cambodian,
    "cjk-decimal" => CjkDecimal,
    "cjk-heavenly" => CjkHeavenlyStem,
    "cjk-earthly" => CjkEarthlyBranch,
    "devanagari" => Devanagari,
    "gujarati" => Gujarati,
    "gurmukhi" => Gurmukhi,
    "kannada" => Kannada,
    "lao" => Lao,
    "malayalam" => Malayalam,
    "mongolian" => Mongolian,
    "myanmar" => Myanmar,
    "oriya" => Oriya,
    "tamil" => Tamil,
    "telugu" => Telugu,
    "thai" => Thai,
    "tibetan" => Tibetan,
    "letter-upper" => LetterUpper,
    "letter-lower" => LetterLower,
    "letter-lower-one" => LetterLower.one_based(),
    "greek-upper" => GreekUpper,
    "greek-lower" => GreekLower,
    "greek-lower-one" => GreekLower.one_based(),
    "hiragana" => Hiragana,
    "hiragana-iroha" => HiraganaIroha,
    "katakana" => Katakana,
    "katakana-iroha" => KatakanaIroha,
    "hangeul-jamo" => HangeulJamo,
    "hangeul-syllable" => HangeulSyllable,
    "hangeul-syllable-one" => OneBased::new(HangeulSyllable),
    "hex-upper" => HexUpper,
    "hex-lower" => HexLower,
    "heavenly-restrict" => Restrict::new(7, CjkHeavenlyStem),
    "heavenly-restrict-one" => Restrict::new(7, CjkHeavenlyStem).one_based(),
    "heavenly-chain" => CjkHeavenlyStem.and(CjkEarthlyBranch),
    "digits-300" => DigitSet::<300, true>::new(WIDE),
    "letters-300" => DigitSet::<300, false>::zeroless(WIDE),
    "letters-300-one" => DigitSet::<300, false>::zeroless(WIDE).one_based(),
    "digits-256" => Restrict::new(256, DigitSet::<300, true>::new(WIDE)),
    "letters-255-one" => Restrict::new(255, DigitSet::<300, false>::zeroless(WIDE)).one_based(),
    "binary" => DigitSet::<2, true>::new(['0', '1']),
    "binary-wide" => DigitSet::<2, true>::new(['\u{1F311}', '\u{1F315}']),
    "dice" => DigitSet::<6, false>::zeroless(['⚀', '⚁', '⚂', '⚃', '⚄', '⚅']),
    "tally" => DigitSet::<1, false>::zeroless(['|']),
    "tally-one" => DigitSet::<1, false>::zeroless(['|']).one_based(),
    "tally-wide-one" => DigitSet::<1, false>::zeroless(['𝍷']).one_based(),
    "only-zero" => DigitSet::<1, true>::new(['0']),
    "empty" => DigitSet::<0, false>::zeroless([]),
    "empty-zero" => DigitSet::<0, true>::new([]),
    "empty-one" => DigitSet::<0, false>::zeroless([]).one_based(),
    "none" => NoFallback,
    "roman-lower" => RomanLower,
    "roman-upper" => RomanUpper,
    "armenian-upper" => ArmenianUpper,
    "armenian-lower" => ArmenianLower,
    "georgian" => Georgian,
    "japanese-formal" => JapaneseFormal,
    "japanese-informal" => JapaneseInformal,
    "hangeul-formal" => HangeulFormal,
    "hanja-informal" => HanjaInformal,
    "hanja-formal" => HanjaFormal,
    "hebrew" => Hebrew,
    "ethiopic" => Ethiopic,
    "circled" => CircledNumber,
    "double-circled" => DoubleCircledNumber,
    "enum-long" => EnumeratedSet::<6, true>::new([A62, A63, A200, "", "x", A300]),
    "enum-long-one" => EnumeratedSet::<5, false>::zeroless([A63, A62, A31, A300, A200]),
    "enum-none" => EnumeratedSet::<0, true>::new([]),
    "enum-none-one" => EnumeratedSet::<0, false>::zeroless([]),
    "add-long-zero" => AdditiveSet::<3>::new([("ab", 5), ("c", 1), (A63, 0)]),
    "add-fit-zero" => AdditiveSet::<3>::new([("ab", 5), ("c", 1), (A62, 0)]),
    "add-huge-zero" => AdditiveSet::<2>::new([("𝍷", 1), (A300, 0)]),
    "add-long" => AdditiveSet::<4>::new([(A62, 1000), (A31, 100), ("é", 10), ("|", 1)]),
    "add-longer" => AdditiveSet::<3>::new([(A200, 10_000), (A63, 7), ("1", 1)]),
    "add-gap" => AdditiveSet::<3>::new([("M", 1000), ("C", 100), ("X", 10)]),
    "add-gap2" => AdditiveSet::<2>::new([("七", 7), ("三", 3)]),
    "add-tally" => AdditiveSet::<1>::new([("|", 1)]),
    "add-big" => AdditiveSet::<4>::new([("G", 1 << 100), ("L", 1 << 40), ("S", 300), ("u", 1)]),
    "add-silent" => AdditiveSet::<3>::new([("G", 1 << 100), ("", 1000), ("u", 1)]),
    "add-silent-one" => AdditiveSet::<2>::new([("", 1), ("零", 0)]),
    "add-empty" => AdditiveSet::<0>::new([]),
    "add-zero-only" => AdditiveSet::<1>::new([("o", 0)]),
    "user" => UserSys,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Zh {
    pub traditional: bool,
    pub formal: bool,
    pub financial: bool,
    /// 0 short, 1 myriad, 2 mid, 3 long
    pub scale: u8,
}

pub fn chinese(z: Zh) -> Box<dyn AnySys> {
    macro_rules! zh {
        ($t:ty) => {{
            let mut s = <$t>::default();
            if z.financial {
                s = s.financial();
            }
            s = match z.scale {
                0 => s.short_scale(),
                2 => s.mid_scale(),
                3 => s.long_scale(),
                _ => s,
            };
            hold(s)
        }};
    }
    match (z.traditional, z.formal) {
        (false, false) => zh!(SimplifiedChineseInformal),
        (false, true) => zh!(SimplifiedChineseFormal),
        (true, false) => zh!(TraditionalChineseInformal),
        (true, true) => zh!(TraditionalChineseFormal),
    }
}

pub fn sim_digits(d: &DigSpec) -> Box<dyn AnySys> {
    match d.fb {
        Fb::None => digits::<NoFallback>(d),
        Fb::Cjk => digits::<CjkDecimal>(d),
        Fb::Letters => digits::<FbLetters>(d),
        Fb::Fixed => digits::<FbFixed>(d),
        Fb::Tally => digits::<FbTally>(d),
        Fb::Empty => digits::<FbEmpty>(d),
        Fb::Grow => digits::<FbGrow>(d),
    }
}

// ------------------------------------------------------------ displaying

/// The format specifications a string is displayed with.
pub const FORMS: u32 = 14;
/// And from here on, those of `Debug`.
pub const DEBUG_FORMS: u32 = 3;

fn show_form<D: Display + ?Sized>(s: &D, form: u32, w: usize, p: usize, k: &mut dyn Write) -> fmt::Result {
    match form {
        0 => write!(k, "{s}"),
        1 => write!(k, "{s:w$}"),
        2 => write!(k, "{s:<w$}"),
        3 => write!(k, "{s:>w$}"),
        4 => write!(k, "{s:^w$}"),
        5 => write!(k, "{s:*^w$.p$}"),
        6 => write!(k, "{s:.p$}"),
        7 => write!(k, "{s:é>w$.p$}"),
        8 => write!(k, "{s:#<w$.p$}"),
        9 => write!(k, "{s:0w$}"),
        10 => write!(k, "{s:+#}"),
        11 => write!(k, "<{s}|{s:>w$}>"),
        12 => write!(k, "{s:字^w$}"),
        _ => k.write_fmt(format_args!("{s:.p$}{s:-<w$}")),
    }
}

/// Displays the library's string.
pub fn show(s: &NominalString, form: u32, w: usize, p: usize, k: &mut dyn Write) -> Result<fmt::Result, Box<dyn std::any::Any + Send>> {
    lib_catch(|| match form {
        f if f < FORMS => show_form(s, form, w, p, k),
        f if f == FORMS => write!(k, "{s:?}"),
        f if f == FORMS + 1 => write!(k, "{s:#?}"),
        _ => write!(k, "{s:w$.p$?}"),
    })
}

/// Displays an ordinary text the same way.
pub fn show_str(s: &str, form: u32, w: usize, p: usize, k: &mut dyn Write) -> fmt::Result {
    show_form(s, form, w, p, k)
}

/// What `{:?}` says.
pub fn debug(s: &NominalString, k: &mut dyn Write) -> fmt::Result {
    lib(|| write!(k, "{s:?}"))
}
