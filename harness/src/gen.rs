//! Shared generators and per-process context.
use crate::engine::Source;
use fixed_decimal::FixedDecimal;
use i18n_lexer::{DataProvider, IcuDataProvider};
use i18n_utility::{LanguageTagRegistry, PlaceholderValue, TaggedString};
use icu_calendar::{
    types::{IsoHour, IsoMinute, IsoSecond, NanoSecond, Time},
    Date, DateTime, Iso,
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Mutex;
use crate::Rc;

thread_local! {
    static ICU: Rc<IcuDataProvider> =
        Rc::new(IcuDataProvider::try_new(DataProvider::Internal).expect("icu data"));
    static SCRATCH: RefCell<PathBuf> = const { RefCell::new(PathBuf::new()) };
}

/// The ICU data is immutable, so it is shared by the cases of a process.
pub fn icu() -> Rc<IcuDataProvider> {
    ICU.with(Rc::clone)
}

pub fn set_scratch(p: PathBuf) {
    SCRATCH.with(|s| *s.borrow_mut() = p);
}

/// An empty scratch directory of this worker.
pub fn scratch() -> PathBuf {
    let p = SCRATCH.with(|s| s.borrow().clone());
    assert!(p.components().count() > 2);
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

pub fn is_pws(c: char) -> bool {
    // Pattern_White_Space is immutable by Unicode stability policy.
    matches!(c, '\u{9}'..='\u{d}' | ' ' | '\u{85}' | '\u{200e}' | '\u{200f}' | '\u{2028}' | '\u{2029}')
}

pub fn is_ps(c: char) -> bool {
    icu_properties::sets::pattern_syntax().contains(c)
}

pub fn is_ident(c: char) -> bool {
    !is_pws(c) && !is_ps(c)
}

pub const GRAMMAR: &[char] = &['{', '}', '`', '#'];
pub const PWS: &[char] = &[
    ' ', '\t', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{200e}', '\u{200f}', '\u{2028}', '\u{2029}',
];
const SYNTAX: &[char] = &[
    '.', ',', '!', '?', '-', ':', ';', '\'', '"', '(', ')', '[', ']', '<', '>', '/', '\\', '|', '@', '$', '%', '^',
    '&', '*', '+', '=', '~', '«', '»', '‘', '’', '“', '”', '…', '—', '←', '∀', '☀', '⟨', '\u{a7}', '\u{3001}',
    '\u{2060}', '\u{fd3e}', '¡',
];
const LETTERS: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', 'A', 'E', 'Z', '0', '1', '9', '_', 'é', 'ß', 'Ω', 'ж', '中', 'あ', 'ا', 'ש', 'ก',
    '\u{301}', '\u{200d}', '😀', '🇿', '🇦', '한', 'ᄀ', 'ᅡ', 'क', '\u{94d}', 'ष', '٣', '\u{fe0f}', '\u{1f3fd}',
    '👩', '𝔘', '\u{308}', '\u{0}', '\u{7f}', '\u{feff}', '\u{e000}', '\u{10ffff}', '\u{a0}', '\u{3000}', '\u{200b}',
];

pub fn scalar(s: &mut Source) -> char {
    loop {
        let hi = *s.pick(&[0x80u32, 0x300, 0x3000, 0x1_0000, 0x2_0000, 0x11_0000]);
        let v = s.below(hi as usize) as u32;
        if let Some(c) = char::from_u32(v) {
            return c;
        }
    }
}

/// One character of text of any kind.
pub fn any_char(s: &mut Source) -> char {
    match s.weighted(&[8, 4, 3, 2, 2]) {
        0 => *s.pick(LETTERS),
        1 => *s.pick(GRAMMAR),
        2 => *s.pick(SYNTAX),
        3 => *s.pick(PWS),
        _ => scalar(s),
    }
}

/// Text of any characters.
pub fn text(s: &mut Source, max: usize) -> String {
    if max >= 5 && s.chance(1, 80) {
        // A long one of few choices.
        let most = *s.pick(&[30, 100, 400]);
        let n = 1 + s.below(most);
        let (a, b, c) = (text(s, 4), text(s, 4), text(s, 4));
        return format!("{a}{}{c}", b.repeat(n));
    }
    let n = s.below(max + 1);
    let mut t = String::new();
    let mut count = 0;
    while count < n {
        if s.chance(1, 4) {
            let w = *s.pick(&["word", " and ", "e\u{301}", "👩\u{200d}👩", "\r\n", "नी", "ab", "🇿🇦", "  "]);
            t.push_str(w);
            count += w.chars().count();
        } else {
            t.push(any_char(s));
            count += 1;
        }
    }
    t
}

/// Text without grammar characters.
pub fn plain_text(s: &mut Source, max: usize) -> String {
    text(s, max).chars().filter(|c| !GRAMMAR.contains(c)).collect()
}

/// A non-empty word of identifier characters.
pub fn ident(s: &mut Source) -> String {
    if s.chance(1, 60) {
        let n = 5 + s.below(40);
        return s.pick(&["a", "Name", "x1_", "é", "数"]).repeat(n);
    }
    if s.chance(2, 3) {
        let n = 1 + s.below(4);
        let t: String = (0..n)
            .map(|_| if s.chance(1, 6) { scalar(s) } else { *s.pick(LETTERS) })
            .filter(|c| is_ident(*c))
            .collect();
        if !t.is_empty() {
            return t;
        }
    }
    s.pick(&[
        "a", "b", "name", "x1", "count", "file_name", "größe", "数", "имя", "other", "one", "plural", "decimal", "T",
        "_x", "sign", "date", "名前", "0", "few",
    ])
    .to_string()
}

/// A name of any characters but NUL.
pub fn any_name(s: &mut Source) -> String {
    if s.bool() {
        return s
            .pick(&[
                "it's", "a\"b", "a%", "%", "*", "a.b", "a b", "[a]", "a;b", "--", "?", "#x", "a\\b", "..", "`", "a?b=c", "{a}", "?1", "'", "''",
                "a'--", "a||b", " ", "\n", "-", "_%", "a/b", "/", "{{", "#", "$", "a,b", "a\u{301}", "\u{feff}", "A", "Ä", "ı",
            ])
            .to_string();
    }
    let n = 1 + s.below(4);
    let t: String = (0..n)
        .map(|_| match s.below(3) {
            0 => scalar(s),
            1 => *s.pick(&['\'', '"', '%', '*', '.', '?', '#', '/', '\\', ' ', '{', '}', '`', '-', ':', '_']),
            _ => *s.pick(LETTERS),
        })
        .filter(|c| *c != '\0')
        .collect();
    if t.is_empty() {
        "'".to_string()
    } else {
        t
    }
}

pub fn ws(s: &mut Source) -> String {
    if s.chance(1, 4) {
        let n = 1 + s.below(3);
        (0..n).map(|_| *s.pick(PWS)).collect()
    } else {
        " ".to_string()
    }
}

pub fn ws0(s: &mut Source) -> String {
    if s.chance(1, 3) {
        ws(s)
    } else {
        String::new()
    }
}

pub const LOCALES: &[&str] = &[
    "en", "en-ZA", "it", "fr", "de", "es", "pt", "pt-PT", "ar", "ar-EG", "he", "ru", "uk", "pl", "cs", "sk", "sl",
    "lt", "lv", "ga", "cy", "br", "mt", "ro", "hr", "sr", "sr-Latn", "bs", "mk", "bg", "hi", "bn", "ta", "te", "ml",
    "kn", "gu", "pa", "mr", "ne", "si", "th", "lo", "my", "km", "vi", "id", "ms", "fil", "zh", "zh-Hant",
    "zh-Hant-HK", "ja", "ko", "tr", "az", "kk", "uz", "fa", "ur", "ps", "am", "sw", "zu", "xh", "af", "is", "da",
    "sv", "nb", "fi", "et", "hu", "el", "hy", "ka", "sq", "eu", "ca", "gl", "gd", "gv", "kw", "en-GB", "en-IN",
    "fr-CA", "de-CH", "es-MX", "dz", "haw", "yi", "ii", "de-AT", "it-CH", "or", "as", "gu-IN", "und", "tlh", "ksh",
    "shi", "lag", "naq", "sc", "scn", "lij", "blo", "ff-Adlm", "mr-IN", "nqo", "ckb",
];

pub fn locale(s: &mut Source) -> &'static str {
    let t = if s.chance(1, 4) {
        s.pick(&["en", "ar", "cy", "pl", "hi", "ga", "lt", "fr"])
    } else {
        s.pick(LOCALES)
    };
    extended(s, t, false)
}

/// Extensions of language tags, which only the build for extended ICU data accepts.
pub const EXTENSIONS: &[&str] = &[
    "u-ca-buddhist", "u-ca-japanese", "u-ca-gregory", "u-nu-thai", "u-nu-arab", "u-nu-deva", "u-hc-h12", "u-hc-h23",
    "u-ca-roc-nu-latn", "u-ca-ethiopic", "u-ca-ethioaa-hc-h11", "u-attr-ca-coptic", "u-co-phonebk", "t-de",
    "a-foo", "u-nu-roman", "u-ca-indian-hc-h24-nu-beng", "u-ca-islamic-civil", "t-en-latn-m0-true-u-nu-mymr",
    "x-app", "u-ca-iso-x-u-ca-coptic", "x-u-ca-iso",
];

/// In the build for extended ICU data now and then the tag with an extension.
/// (`private`: also of private use, for which ICU has no plural rules).
pub fn extended(s: &mut Source, tag: &'static str, private: bool) -> &'static str {
    if cfg!(not(feature = "extra")) || !s.chance(1, 5) {
        return tag;
    }
    static SEEN: Mutex<BTreeMap<String, &'static str>> = Mutex::new(BTreeMap::new());
    let t = format!("{tag}-{}", s.pick(&EXTENSIONS[..EXTENSIONS.len() - if private { 0 } else { 3 }]));
    let mut seen = SEEN.lock().unwrap();
    seen.entry(t.clone()).or_insert_with(|| Box::leak(t.into_boxed_str()))
}

pub fn without_extension(tag: &str) -> String {
    let parts: Vec<&str> = tag.split('-').take_while(|t| t.len() > 1).collect();
    parts.join("-")
}

pub fn has_extension(tag: &str) -> bool {
    tag.split('-').any(|t| t.len() == 1)
}

pub fn gen_u128(s: &mut Source) -> u128 {
    match s.weighted(&[6, 4, 3, 2, 2]) {
        0 => s.below(32) as u128,
        1 => *s.pick(&[
            0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 21, 22, 23, 24, 25, 81, 91, 99, 100, 101, 102, 103,
            104, 105, 106, 110, 111, 112, 121, 199, 200, 201, 211, 999, 1000, 1001, 1011, 9999, 10_000, 10_001,
            99_999, 100_000, 999_999, 1_000_000, 1_000_001, 2_000_000, 1_000_000_000,
        ]),
        2 => {
            let p = 10u128.pow(s.below(39) as u32);
            p.saturating_add(s.below(5) as u128).saturating_sub(2)
        }
        3 => {
            let bits = s.below(129);
            if bits == 0 {
                0
            } else {
                s.u128() >> (128 - bits)
            }
        }
        _ => *s.pick(&[u128::MAX, u64::MAX as u128, i64::MAX as u128, i128::MAX as u128, u32::MAX as u128]),
    }
}

pub fn gen_i128(s: &mut Source) -> i128 {
    if s.chance(1, 16) {
        return *s.pick(&[i128::MIN, i128::MAX, i64::MIN as i128, i64::MAX as i128, i128::MIN + 1]);
    }
    let m = (gen_u128(s) & (i128::MAX as u128)) as i128;
    if s.chance(2, 5) {
        -m
    } else {
        m
    }
}

/// A float; where two decimal texts are equally short and equally near (…136.25 as …136.2 or …136.3),
/// which of them stands for the float is not specified, so such floats are made integral.
pub fn gen_float(s: &mut Source) -> f64 {
    let f = gen_float_any(s);
    let ryu = FixedDecimal::try_from_f64(f, fixed_decimal::FloatPrecision::Floating).map(|d| d.to_string());
    match ryu {
        Ok(t) if t != format!("{f}") => f.trunc(),
        _ => f,
    }
}

fn gen_float_any(s: &mut Source) -> f64 {
    match s.weighted(&[4, 4, 2, 1, 1]) {
        0 => s.range(-1000, 1000) as f64 / *s.pick(&[1.0, 10.0, 100.0, 4.0, 1000.0]),
        1 => gen_i128(s) as f64,
        2 => f64::from_bits(s.u64()),
        3 => *s.pick(&[0.0, -0.0, 1e300, 1e-300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1.5, 1e21, 123456.789]),
        _ => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]),
    }
}

pub fn gen_fixed(s: &mut Source) -> FixedDecimal {
    let mut d = if s.chance(1, 4) { FixedDecimal::from(gen_i128(s)) } else { FixedDecimal::from(s.range(-12, 2500)) };
    if s.chance(2, 3) {
        d.multiply_pow10(-(s.below(5) as i16));
    }
    if s.chance(1, 3) {
        d.pad_end(-(s.below(6) as i16));
    }
    if s.chance(1, 6) {
        d.pad_start(s.below(9) as i16);
    }
    if s.chance(1, 12) {
        d.set_sign(fixed_decimal::Sign::Negative);
    } else if s.chance(1, 12) {
        d.set_sign(fixed_decimal::Sign::Positive);
    }
    d
}

/// A number of any numeric kind (finite or not).
pub fn gen_number(s: &mut Source) -> PlaceholderValue {
    match s.weighted(&[4, 3, 3, 3]) {
        0 => PlaceholderValue::Unsigned(gen_u128(s)),
        1 => PlaceholderValue::Integer(gen_i128(s)),
        2 => PlaceholderValue::Float(gen_float(s)),
        _ => PlaceholderValue::FixedDecimal(gen_fixed(s)),
    }
}

pub fn gen_ymd(s: &mut Source) -> (i32, u8, u8) {
    loop {
        let y = match s.weighted(&[10, 6, 4, 1]) {
            0 => s.range(1868, 2100) as i32,
            1 => *s.pick(&[2000, 1900, 2024, 2023, 0, 1, -1, 4, 9999, -9999, 1582, 1868, 1989, 2019, 284, 79, 8, 1970]),
            2 => s.range(-9999, 9999) as i32,
            _ => s.range(-99_999, 99_999) as i32,
        };
        let m = 1 + s.below(12) as u8;
        let mut d = 1 + s.below(31) as u8;
        if s.chance(1, 5) {
            d = *s.pick(&[28, 29, 30, 31]);
        }
        while Date::try_new_iso_date(y, m, d).is_err() {
            d -= 1;
        }
        return (y, m, d);
    }
}

pub fn date(s: &mut Source) -> Date<Iso> {
    let (y, m, d) = gen_ymd(s);
    Date::try_new_iso_date(y, m, d).unwrap()
}

pub fn mk_time(h: u8, m: u8, sec: u8, n: u32) -> Time {
    Time::new(
        IsoHour::try_from(h).unwrap(),
        IsoMinute::try_from(m).unwrap(),
        IsoSecond::try_from(sec).unwrap(),
        NanoSecond::try_from(n).unwrap(),
    )
}

pub fn gen_hmsn(s: &mut Source) -> (u8, u8, u8, u32) {
    if s.chance(1, 8) {
        return *s.pick(&[(0, 0, 0, 0), (12, 0, 0, 0), (23, 59, 59, 999_999_999), (0, 0, 1, 0), (11, 59, 59, 0)]);
    }
    (s.below(24) as u8, s.below(60) as u8, s.below(60) as u8, if s.chance(1, 4) { s.below(1_000_000_000) as u32 } else { 0 })
}

pub fn time(s: &mut Source) -> Time {
    let (h, m, sec, n) = gen_hmsn(s);
    mk_time(h, m, sec, n)
}

/// Text whose formatting does not depend on whether it is a pattern.
pub fn string_value(s: &mut Source, reg: &LanguageTagRegistry) -> PlaceholderValue {
    let t = text(s, 8);
    text_kind(s, reg, t)
}

pub fn text_kind(s: &mut Source, reg: &LanguageTagRegistry, t: String) -> PlaceholderValue {
    match s.weighted(&[4, 1, 1]) {
        0 => PlaceholderValue::String(t),
        1 => PlaceholderValue::TaggedString(TaggedString::new(t, &reg.tag(locale(s)).unwrap())),
        _ => PlaceholderValue::Localised(Rc::new(t), reg.tag(locale(s)).unwrap()),
    }
}

pub fn date_time_value(s: &mut Source) -> PlaceholderValue {
    match s.below(3) {
        0 => PlaceholderValue::Date(date(s)),
        1 => PlaceholderValue::Time(time(s)),
        _ => PlaceholderValue::DateTime(DateTime::new(date(s), time(s))),
    }
}

/// A value of any kind, including unsuitable and malformed ones.
pub fn any_value(s: &mut Source, reg: &LanguageTagRegistry) -> PlaceholderValue {
    match s.weighted(&[3, 3, 2, 1, 1]) {
        0 => string_value(s, reg),
        1 => gen_number(s),
        2 => date_time_value(s),
        3 => PlaceholderValue::String(iso_ish(s)),
        _ => PlaceholderValue::LocalisationData(i18n_utility::LocalisationData {
            component: "c".to_string(),
            identifier: "i".to_string(),
            values: None,
        }),
    }
}

/// Something that looks like an ISO date or time, often malformed.
pub fn iso_ish(s: &mut Source) -> String {
    let n = s.below(14);
    let mut t = String::new();
    for _ in 0..n {
        match s.weighted(&[8, 2, 2, 1, 1, 1, 1]) {
            0 => t.push(char::from(b'0' + s.below(10) as u8)),
            1 => t.push('-'),
            2 => t.push(':'),
            3 => t.push('T'),
            4 => t.push_str(s.pick(&["+", "Z", ".", "2024-02-29", "99", "é", "", "T12", "-1", "+9999999999"])),
            5 => t.push_str(s.pick(&["2024", "12", "31", "00", "60", "24", "13"])),
            _ => t.push(any_char(s)),
        }
    }
    t
}
