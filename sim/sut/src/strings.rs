use super::lib;
use nominals::{NominalString, OutOfMemoryError};

pub fn s_new(how: u8) -> NominalString {
    lib(|| match how {
        0 => NominalString::new(),
        1 => NominalString::new_reverse(),
        _ => NominalString::default(),
    })
}

pub fn s_from_str(s: &str) -> NominalString {
    lib(|| NominalString::from(s))
}

pub fn s_from_char(c: char) -> NominalString {
    lib(|| NominalString::from(c))
}

#[cfg(feature = "heap")]
pub fn s_from_string(s: String) -> NominalString {
    lib(|| NominalString::from(s))
}

#[cfg(feature = "heap")]
pub fn s_from_string_ref(s: &String) -> NominalString {
    lib(|| NominalString::from(s))
}

pub fn s_push(s: &mut NominalString, c: char) -> Result<(), OutOfMemoryError> {
    lib(|| s.try_push(c))
}

pub fn s_push_str(s: &mut NominalString, t: &str) -> Result<(), OutOfMemoryError> {
    lib(|| s.try_push_str(t))
}

pub fn s_push_front(s: &mut NominalString, c: char) -> Result<(), OutOfMemoryError> {
    lib(|| s.try_push_front(c))
}

pub fn s_case(s: &mut NominalString, upper: bool) {
    lib(|| {
        if upper {
            s.make_ascii_uppercase();
        } else {
            s.make_ascii_lowercase();
        }
    });
}

#[cfg(feature = "heap")]
pub fn s_clone(s: &NominalString) -> NominalString {
    lib(|| s.clone())
}

#[cfg(feature = "heap")]
pub fn s_clone_from(a: &mut NominalString, b: &NominalString) {
    lib(|| a.clone_from(b));
}

/// Every comparison the type offers: bit k set when the k-th holds.
pub fn s_compare(a: &NominalString, b: &NominalString) -> u32 {
    use core::cmp::Ordering::*;
    lib(|| {
        let t: &str = b;
        let bits = [
            a == b,
            *a == *t,
            *a == t,
            a.cmp(b) == Less,
            a.cmp(b) == Equal,
            a.cmp(b) == Greater,
            a.partial_cmp(b) == Some(Less),
            a.partial_cmp(t) == Some(Less),
            a.partial_cmp(t) == Some(Equal),
            a < b,
            a >= b,
            a.is_empty(),
            a.len() == b.len(),
            a.starts_with(t),
        ];
        bits.iter().enumerate().fold(0, |x, (i, &b)| x | u32::from(b) << i)
    })
}

/// The same with ordinary texts.
pub fn str_compare(a: &str, b: &str) -> u32 {
    use core::cmp::Ordering::*;
    let o = a.cmp(b);
    let bits = [
        a == b,
        a == b,
        a == b,
        o == Less,
        o == Equal,
        o == Greater,
        o == Less,
        o == Less,
        o == Equal,
        a < b,
        a >= b,
        a.is_empty(),
        a.len() == b.len(),
        a.starts_with(b),
    ];
    bits.iter().enumerate().fold(0, |x, (i, &b)| x | u32::from(b) << i)
}

#[cfg(feature = "heap")]
pub fn s_compare_string(a: &NominalString, b: &String) -> u32 {
    use core::cmp::Ordering::*;
    lib(|| {
        let bits = [
            *a == *b,
            a.partial_cmp(b) == Some(Less),
            a.partial_cmp(b) == Some(Equal),
            *a > *b,
        ];
        bits.iter().enumerate().fold(0, |x, (i, &b)| x | u32::from(b) << i)
    })
}

pub fn str_compare_string(a: &str, b: &str) -> u32 {
    use core::cmp::Ordering::*;
    let bits = [a == b, a.cmp(b) == Less, a.cmp(b) == Equal, a > b];
    bits.iter().enumerate().fold(0, |x, (i, &b)| x | u32::from(b) << i)
}

#[cfg(feature = "heap")]
pub fn s_into_string(s: NominalString) -> String {
    lib(|| String::from(s))
}

#[cfg(feature = "heap")]
pub fn s_try_into_string(s: NominalString) -> Result<String, NominalString> {
    lib(|| s.try_into_string())
}

pub fn s_drop(s: NominalString) {
    lib(|| drop(s));
}

pub fn s_inline(s: &NominalString) -> bool {
    lib(|| s.is_inline())
}
