//! C03, C04: the language tag registry, driven by histories of lookups.
use crate::engine::{CaseResult, Prop, Rec, Source};
use crate::gen::*;
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use std::collections::{BTreeMap, BTreeSet};
use crate::Rc;

pub fn alpha(t: &str, lo: usize, hi: usize) -> bool {
    (lo..=hi).contains(&t.len()) && t.bytes().all(|b| b.is_ascii_alphabetic())
}
fn variant(t: &str) -> bool {
    t.bytes().all(|b| b.is_ascii_alphanumeric())
        && ((5..=8).contains(&t.len()) || (t.len() == 4 && t.as_bytes()[0].is_ascii_digit()))
}

/// The canonical form of a tag, None if not well-formed.
pub fn canonical(text: &str) -> Option<String> {
    let id = canonical_id(text);
    #[cfg(feature = "extra")]
    let id = id.or_else(|| {
        // Only tags with extensions.
        let l: icu_locid::Locale = text.parse().ok()?;
        (!l.extensions.is_empty()).then(|| l.to_string())
    });
    id
}

/// The canonical form of a Unicode language identifier (UTS 35), None if not well-formed.
fn canonical_id(text: &str) -> Option<String> {
    if !text.is_ascii() {
        return None;
    }
    let parts: Vec<&str> = text.split(['-', '_']).collect();
    let mut out: Vec<String> = vec![];
    let first = parts[0];
    if !alpha(first, 2, 3) {
        return None;
    }
    out.push(first.to_ascii_lowercase());
    let mut i = 1;
    if let Some(p) = parts.get(i) {
        if alpha(p, 4, 4) {
            let l = p.to_ascii_lowercase();
            out.push(l[..1].to_ascii_uppercase() + &l[1..]);
            i += 1;
        }
    }
    if let Some(p) = parts.get(i) {
        if alpha(p, 2, 2) || (p.len() == 3 && p.bytes().all(|b| b.is_ascii_digit())) {
            out.push(p.to_ascii_uppercase());
            i += 1;
        }
    }
    let mut variants = BTreeSet::new();
    for p in &parts[i..] {
        if !variant(p) || !variants.insert(p.to_ascii_lowercase()) {
            return None;
        }
    }
    out.extend(variants);
    Some(out.join("-"))
}

pub fn base(s: &mut Source) -> String {
    let mut t = match s.weighted(&[3, 3]) {
        0 => s
            .pick(&[
                "en", "en-ZA", "zh-Hant-HK", "sr-Latn", "de-1996", "sl-rozaj-biske", "ca-valencia", "und", "es-419",
                "de-DE-1901-1996", "hy-Latn-IT-arevela", "gsw", "und-Latn", "zh-Hans", "und-US",
            ])
            .to_string(),
        _ => {
            let letters = |s: &mut Source, n: usize| -> String { (0..n).map(|_| (b'a' + s.below(26) as u8) as char).collect() };
            let n = *s.pick(&[2, 2, 3]);
            let mut t = letters(s, n);
            if s.chance(1, 3) {
                t.push('-');
                let p = letters(s, 4);
                t.push_str(&p);
            }
            if s.chance(1, 2) {
                t.push('-');
                if s.bool() {
                    let p = letters(s, 2);
                    t.push_str(&p);
                } else {
                    t.push_str(&format!("{:03}", s.below(1000)));
                }
            }
            for _ in 0..s.weighted(&[4, 2, 1]) {
                t.push('-');
                if s.bool() {
                    let n = 5 + s.below(4);
                    let p = letters(s, n);
                    t.push_str(&p);
                } else {
                    t.push_str(&format!("{}{}", s.below(10), letters(s, 3)));
                }
            }
            t
        }
    };
    if cfg!(feature = "extra") && s.chance(1, 4) {
        t.push('-');
        t.push_str(s.pick(EXTENSIONS));
    }
    t
}

/// Another spelling of the same tag.
pub fn respell(s: &mut Source, t: &str) -> String {
    let mode = s.below(4);
    let mut parts: Vec<String> = t.split('-').map(|x| x.to_string()).collect();
    // Variants may be given in any order.
    let n = parts.len();
    if n >= 3 && s.chance(1, 4) && variant(&parts[n - 1]) && variant(&parts[n - 2]) {
        parts.swap(n - 1, n - 2);
    }
    let sep = s.below(3);
    let mut o = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            o.push(match sep {
                0 => '-',
                1 => '_',
                _ => *s.pick(&['-', '_']),
            });
        }
        for c in p.chars() {
            o.push(match mode {
                0 => c,
                1 => c.to_ascii_lowercase(),
                2 => c.to_ascii_uppercase(),
                _ => {
                    if s.bool() {
                        c.to_ascii_uppercase()
                    } else {
                        c.to_ascii_lowercase()
                    }
                }
            });
        }
    }
    o
}

pub fn malformed(s: &mut Source) -> String {
    match s.below(5) {
        0 => {
            let mut t = base(s);
            t.push_str(s.pick(&["-", "--x", "-u-ca-buddhist", "-x-a", "-é", " ", "-toolongsubtag", "-a", "\0", "_", "-1", "-t-en"]));
            t
        }
        1 => s.pick(&["", "-", "e", "1", "abcd", "en-", "-en", "en--ZA", "en ZA", "x-private", "i-klingon", "en.ZA", "latn-US"]).to_string(),
        2 => text(s, 8),
        3 => {
            // one character replaced
            let t = base(s);
            let mut c: Vec<char> = t.chars().collect();
            let i = s.below(c.len());
            c[i] = any_char(s);
            c.into_iter().collect()
        }
        _ => {
            // a repeated variant
            let mut t = base(s);
            t.push_str("-rozaj-rozaj");
            t
        }
    }
}

pub struct Model {
    /// canonical -> instance
    pub tags: BTreeMap<String, Rc<LanguageTag>>,
    pub spellings: BTreeSet<String>,
}

pub fn sorted(v: Vec<Rc<LanguageTag>>) -> Vec<String> {
    let mut t: Vec<String> = v.iter().map(|x| x.as_str().to_string()).collect();
    t.sort();
    t
}

fn history(s: &mut Source, r: &mut Rec, lists: bool) -> CaseResult {
    let reg = if s.bool() { LanguageTagRegistry::new() } else { LanguageTagRegistry::default() };
    let mut m = Model { tags: BTreeMap::new(), spellings: BTreeSet::new() };
    let mut icus: BTreeMap<String, Rc<_>> = BTreeMap::new();
    let long = s.long(300);
    r.class_if(long, "long history");
    let n_bases = 1 + s.below(if long { 300 } else { 4 });
    let bases: Vec<String> = (0..n_bases).map(|_| base(s)).collect();
    let mut desc = vec![];
    let steps = 1 + s.below(if long { 1500 } else { 14 });
    let mut shared = false;
    for _ in 0..steps {
        let op = s.weighted(&[6, 2, 2, 2]);
        let text = match op {
            0 | 3 => {
                let b = s.pick(&bases).clone();
                respell(s, &b)
            }
            1 => {
                let b = s.pick(&bases).clone();
                canonical(&b).unwrap_or(b)
            }
            _ => malformed(s),
        };
        // Languages of 5 to 8 letters are well-formed but ICU does not support them.
        if alpha(text.split(['-', '_']).next().unwrap(), 5, 8) {
            continue;
        }
        desc.push(text.clone());
        if desc.len() <= 40 {
            r.case(format!("{desc:?}"));
        }
        let before = if canonical(&text).is_none() { Some(sorted(reg.list_all())) } else { None };
        let got = reg.tag(&text);
        match (canonical(&text), got) {
            (None, Err(_)) => {
                r.class("malformed text");
                if before != Some(sorted(reg.list_all())) {
                    return Err(format!("{text:?} changed the registry"));
                }
            }
            (None, Ok(t)) => return Err(format!("malformed {text:?} gave {:?}", t.as_str())),
            (Some(c), Err(e)) => return Err(format!("well-formed {text:?} ({c}) gave {e:?}")),
            (Some(c), Ok(t)) => {
                if t.as_str() != c {
                    return Err(format!("{text:?} gave {:?}, expected {c:?}", t.as_str()));
                }
                let parsed: icu_locid::Locale =
                    text.parse().map_err(|e| format!("harness: icu rejects {text:?}: {e:?}"))?;
                if t.icu_language().to_string() != parsed.to_string() {
                    return Err(format!("icu language of {text:?} is {}", t.icu_language()));
                }
                if let Some(old) = m.tags.get(&c) {
                    shared = true;
                    if !Rc::ptr_eq(old, &t) {
                        return Err(format!("{text:?} gave another instance of {c:?}"));
                    }
                }
                if text != c {
                    r.class("non-canonical spelling");
                    m.spellings.insert(text.clone());
                }
                m.tags.insert(c.clone(), Rc::clone(&t));
                if s.chance(1, 8) {
                    r.class("tagged text");
                    let x = crate::gen::text(s, 5);
                    let y = i18n_utility::TaggedString::new(x.as_str(), &t);
                    if y.as_str() != x || *y.as_string() != x || y.to_string() != x || !Rc::ptr_eq(y.tag(), &t) {
                        return Err(format!("{x:?} tagged with {c:?} is {y:?}"));
                    }
                }
                if op == 3 || s.chance(1, 3) {
                    let i = match s.chance(1, 4) {
                        // An equal tag of another registry.
                        true => reg.icu_language(&LanguageTagRegistry::new().tag(&text).map_err(|e| format!("{text:?}: {e:?}"))?),
                        false => reg.icu_language(&t),
                    };
                    if i.to_string() != parsed.to_string() {
                        return Err(format!("registry icu language of {text:?} is {i}"));
                    }
                    if let Some(old) = icus.get(&c) {
                        r.class("icu language again");
                        if !Rc::ptr_eq(old, &i) {
                            return Err(format!("another icu instance for {c:?}"));
                        }
                    }
                    icus.insert(c, i);
                }
            }
        }
        if lists && s.chance(1, if long { 60 } else { 3 }) {
            check_lists(&reg, &m)?;
        }
    }
    r.class_if(shared, "same tag again");
    r.nontrivial = steps >= 3 && shared;
    if lists {
        check_lists(&reg, &m)?;
    }
    Ok(())
}

pub fn check_lists(reg: &LanguageTagRegistry, m: &Model) -> CaseResult {
    let tags: Vec<String> = m.tags.keys().cloned().collect();
    let mut dep: Vec<String> = m.spellings.iter().map(|x| canonical(x).unwrap()).collect();
    dep.sort();
    let mut all = [tags.clone(), dep.clone()].concat();
    all.sort();
    for (what, got, exp) in [
        ("list", reg.list(), &tags),
        ("list_deprecated", reg.list_deprecated(), &dep),
        ("list_all", reg.list_all(), &all),
    ] {
        for t in &got {
            if !m.tags.get(t.as_str()).is_some_and(|x| Rc::ptr_eq(x, t)) {
                return Err(format!("{what} contains a foreign instance of {:?}", t.as_str()));
            }
        }
        let got = sorted(got);
        if got != *exp {
            return Err(format!("{what} is {got:?}, expected {exp:?}"));
        }
    }
    Ok(())
}

fn c03(s: &mut Source, r: &mut Rec) -> CaseResult {
    history(s, r, false)
}
fn c04(s: &mut Source, r: &mut Rec) -> CaseResult {
    history(s, r, true)
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C03",
        rule: "histories of 1-14 lookups over 1-4 tags (some of up to 1500 lookups over up to 300 tags) in random spellings (case, separators, order of variants), canonical texts, and malformed texts; non-trivial: at least 3 lookups and at least one tag looked up again",
        tape: 600,
        quick: 60_000,
        thorough: 900_000,
        level: "exploration",
        assumptions: &["well-formedness and canonical form are those of UTS 35 unicode_language_id (reference implementation in the harness)"],
        run: c03,
        fixed: None,
    },
    Prop {
        id: "C04",
        rule: "histories as for C03, the three lists compared with a model at random points and at the end; non-trivial: at least 3 lookups and at least one tag looked up again",
        tape: 600,
        quick: 60_000,
        thorough: 900_000,
        level: "exploration",
        assumptions: &["the lists are unordered"],
        run: c04,
        fixed: None,
    },
];
