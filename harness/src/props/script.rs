//! C26: script data.
use crate::engine::{CaseResult, Prop, Rec, Source};
use crate::gen::*;
use crate::mem;
use i18n_utility::{Direction, LanguageTagRegistry, ScriptData, ScriptDirection};
use icu_locid::{LanguageIdentifier, Locale};
use icu_locid_transform::{Direction as IcuDirection, LocaleDirectionality, LocaleExpander, TransformResult};
use crate::Rc;

/// Codes of ISO 15924: scripts of Unicode, then variants and combinations.
const SCRIPTS: &[&str] = &[
    "Adlm", "Aghb", "Ahom", "Arab", "Armi", "Armn", "Avst", "Bali", "Bamu", "Bass", "Batk", "Beng", "Bhks", "Bopo", "Brah", "Brai", "Bugi", "Buhd",
    "Cakm", "Cans", "Cari", "Cham", "Cher", "Chrs", "Copt", "Cpmn", "Cprt", "Cyrl", "Deva", "Diak", "Dogr", "Dsrt", "Dupl", "Egyp", "Elba", "Elym",
    "Ethi", "Gara", "Geor", "Glag", "Gong", "Gonm", "Goth", "Gran", "Grek", "Gujr", "Gukh", "Guru", "Hang", "Hani", "Hano", "Hatr", "Hebr", "Hira",
    "Hluw", "Hmng", "Hmnp", "Hung", "Ital", "Java", "Kali", "Kana", "Kawi", "Khar", "Khmr", "Khoj", "Kits", "Knda", "Krai", "Kthi", "Lana", "Laoo",
    "Latn", "Lepc", "Limb", "Lina", "Linb", "Lisu", "Lyci", "Lydi", "Mahj", "Maka", "Mand", "Mani", "Marc", "Medf", "Mend", "Merc", "Mero", "Mlym",
    "Modi", "Mong", "Mroo", "Mtei", "Mult", "Mymr", "Nagm", "Nand", "Narb", "Nbat", "Newa", "Nkoo", "Nshu", "Ogam", "Olck", "Onao", "Orkh", "Orya",
    "Osge", "Osma", "Ougr", "Palm", "Pauc", "Perm", "Phag", "Phli", "Phlp", "Phnx", "Plrd", "Prti", "Rjng", "Rohg", "Runr", "Samr", "Sarb", "Saur",
    "Sgnw", "Shaw", "Shrd", "Sidd", "Sind", "Sinh", "Sogd", "Sogo", "Sora", "Soyo", "Sund", "Sunu", "Sylo", "Syrc", "Tagb", "Takr", "Tale", "Talu",
    "Taml", "Tang", "Tavt", "Telu", "Tfng", "Tglg", "Thaa", "Thai", "Tibt", "Tirh", "Tnsa", "Todr", "Toto", "Tutg", "Ugar", "Vaii", "Vith", "Wara",
    "Wcho", "Xpeo", "Xsux", "Yezi", "Yiii", "Zanb",
];
const VARIANTS: &[&str] = &["Hans", "Hant", "Jpan", "Kore", "Hrkt", "Cyrs", "Latf", "Latg", "Syre", "Syrj", "Syrn", "Hanb", "Jamo"];
/// Codes that are no script.
const NO_SCRIPT: &[&str] = &["Zxxx", "Abcd", "Xyzw", "Qaaa", "Blis", "Cirt", "Teng", "Hikt", "Zand"];

/// Scripts in present use with their category.
const KNOWN: &[(&str, &[&str])] = &[
    ("Alphabetic", &["Latn", "Cyrl", "Grek", "Armn", "Geor", "Hang", "Kore", "Mong", "Nkoo", "Adlm", "Olck", "Osge", "Bopo"]),
    ("Abjad", &["Arab", "Hebr", "Syrc"]),
    ("Abugida", &["Deva", "Beng", "Guru", "Gujr", "Orya", "Taml", "Telu", "Knda", "Mlym", "Sinh", "Thai", "Laoo", "Tibt", "Mymr", "Khmr", "Ethi", "Java", "Bali", "Sund", "Cakm", "Mtei", "Tale", "Talu", "Cans"]),
    ("Syllabic", &["Hira", "Kana", "Yiii", "Cher", "Vaii", "Hrkt"]),
    ("Logographic", &["Hani", "Hans", "Hant"]),
];
/// Those of them that are (also) written vertically, or in both horizontal directions.
const VERTICAL: &[&str] = &["Hang", "Kore", "Mong", "Bopo", "Hira", "Kana", "Hrkt", "Hani", "Hans", "Hant", "Grek", "Yiii"];
/// Further scripts that are written in horizontal lines of one direction only.
const HORIZONTAL: &[&str] = &[
    "Lisu", "Bamu", "Kali", "Lana", "Lepc", "Limb", "Rohg", "Saur", "Sora", "Sylo", "Tavt", "Thaa", "Wcho", "Nagm", "Mroo", "Medf", "Wara", "Shaw", "Dsrt", "Gran", "Tirh", "Newa", "Copt",
    "Goth", "Samr", "Mand", "Yezi", "Latf", "Latg", "Cyrs", "Takr", "Dogr", "Modi", "Armi", "Nbat", "Palm", "Hatr", "Avst", "Phli", "Prti", "Linb", "Ugar", "Mend", "Gara", "Elba", "Osma",
    "Hmnp", "Krai", "Onao", "Sind", "Khoj", "Mahj", "Gong", "Gonm", "Toto", "Khar", "Glag", "Brai", "Mult", "Nand",
];
const HISTORIC: &[&str] = &[
    "Avst", "Cari", "Egyp", "Goth", "Ital", "Khar", "Lina", "Linb", "Lyci", "Lydi", "Ogam", "Orkh", "Phnx", "Runr", "Ugar", "Xpeo", "Xsux", "Armi", "Brah", "Cprt", "Glag", "Hluw",
    "Mero", "Merc", "Narb", "Palm", "Phag", "Sarb", "Tang", "Aghb", "Bhks", "Chrs", "Cpmn", "Elba", "Elym", "Hatr", "Mahj", "Maka", "Mani", "Marc", "Modi", "Mult",
    "Nand", "Nbat", "Ougr", "Perm", "Phli", "Phlp", "Prti", "Sidd", "Sogd", "Sogo", "Soyo", "Zanb", "Vith", "Kthi",
];
/// Further scripts in present use.
const USED: &[&str] = &[
    "Bamu", "Cham", "Kali", "Lana", "Lepc", "Limb", "Lisu", "Plrd", "Rohg", "Saur", "Sora", "Sylo", "Tavt", "Tfng", "Thaa", "Wcho", "Hmnp", "Brai", "Jpan", "Hanb", "Toto", "Nagm",
    "Mroo", "Medf", "Wara",
];
/// Languages and regions with their usual script.
const USUAL: &[(&str, &str)] = &[
    ("en", "Latn"), ("en-ZA", "Latn"), ("it", "Latn"), ("ru", "Cyrl"), ("uk", "Cyrl"), ("bg", "Cyrl"), ("el", "Grek"), ("ar", "Arab"), ("fa", "Arab"), ("ur", "Arab"),
    ("he", "Hebr"), ("yi", "Hebr"), ("hi", "Deva"), ("mr", "Deva"), ("ne", "Deva"), ("bn", "Beng"), ("as", "Beng"), ("pa", "Guru"), ("pa-PK", "Arab"), ("gu", "Gujr"),
    ("or", "Orya"), ("ta", "Taml"), ("te", "Telu"), ("kn", "Knda"), ("ml", "Mlym"), ("si", "Sinh"), ("th", "Thai"), ("lo", "Laoo"), ("bo", "Tibt"), ("dz", "Tibt"),
    ("my", "Mymr"), ("ka", "Geor"), ("hy", "Armn"), ("am", "Ethi"), ("ti", "Ethi"), ("km", "Khmr"), ("zh", "Hans"), ("zh-TW", "Hant"), ("zh-HK", "Hant"), ("ja", "Jpan"),
    ("ko", "Kore"), ("dv", "Thaa"), ("ii", "Yiii"), ("chr", "Cher"), ("iu", "Cans"), ("sr", "Cyrl"), ("sr-ME", "Latn"), ("az", "Latn"), ("uz", "Latn"), ("uz-AF", "Arab"),
    ("nqo", "Nkoo"), ("ff-Adlm", "Adlm"), ("sr-Latn", "Latn"), ("zh-Hant-CN", "Hant"), ("vai", "Vaii"), ("ckb", "Arab"), ("mn-CN", "Mong"), ("ks", "Arab"), ("sd", "Arab"), ("sd-Deva", "Deva"),
];

fn show(d: &Option<ScriptData>) -> String {
    format!("{d:?}")
}

fn likely(tag: &str) -> Option<String> {
    let mut l = tag.parse::<Locale>().unwrap().id;
    if let Some(s) = l.script {
        return Some(s.to_string());
    }
    thread_local!(static E: LocaleExpander = LocaleExpander::new_extended());
    match E.with(|e| e.maximize(&mut l)) {
        TransformResult::Modified => l.script.map(|s| s.to_string()),
        TransformResult::Unmodified => None,
    }
}

fn parts(d: &ScriptDirection) -> (String, String) {
    // The name of a direction is that of its two components.
    let name = format!("{d:?}");
    for p in ["TopToBottom", "BottomToTop", "LeftToRight", "RightToLeft"] {
        if let Some(q) = name.strip_prefix(p) {
            return (p.to_string(), q.to_string());
        }
    }
    (name, String::new())
}

fn judge_script(script: &str, d: &Option<ScriptData>, r: &mut Rec) -> CaseResult {
    let Some(d) = d else {
        if SCRIPTS.contains(&script) || VARIANTS.contains(&script) {
            return Err(format!("no data for the script {script}"));
        }
        r.class("no data");
        return Ok(());
    };
    if NO_SCRIPT.contains(&script) {
        return Err(format!("data for {script}, which is no script: {d:?}"));
    }
    if d.directions.is_empty() {
        return Err(format!("no direction for {script}"));
    }
    for x in &d.directions {
        judge_direction(x)?;
    }
    let tag: LanguageIdentifier = format!("und-{script}").parse().unwrap();
    thread_local!(static D: LocaleDirectionality = LocaleDirectionality::new_with_expander(LocaleExpander::new_extended()));
    let icu = D.with(|d| d.get(&tag));
    let horizontal: Vec<Direction> = d.directions.iter().map(|x| x.grapheme()).filter(|x| matches!(x, Direction::LeftToRight | Direction::RightToLeft)).collect();
    if let (Some(icu), false) = (icu, horizontal.is_empty()) {
        let e = if icu == IcuDirection::RightToLeft { Direction::RightToLeft } else { Direction::LeftToRight };
        if !horizontal.contains(&e) {
            return Err(format!("{script} is written {e:?}, its directions are {:?}", d.directions));
        }
        r.class_if(e == Direction::RightToLeft, "right to left");
    }
    if HORIZONTAL.contains(&script) || KNOWN.iter().any(|k| k.1.contains(&script)) && !VERTICAL.contains(&script) {
        let e = if icu == Some(IcuDirection::RightToLeft) { ScriptDirection::TopToBottomRightToLeft } else { ScriptDirection::TopToBottomLeftToRight };
        if icu.is_some() && d.directions != [e.clone()] {
            return Err(format!("{script} is only written {e:?}, its directions are {:?}", d.directions));
        }
        r.class("only horizontal");
    }
    for (cat, list) in KNOWN {
        if list.contains(&script) {
            if format!("{:?}", d.category) != *cat || d.historic {
                return Err(format!("{script} is {cat} and in use, got {d:?}"));
            }
            r.class("known category");
        }
    }
    if USED.contains(&script) && d.historic {
        return Err(format!("{script} is in use, got {d:?}"));
    }
    if HISTORIC.contains(&script) && !d.historic {
        return Err(format!("{script} is historic, got {d:?}"));
    }
    Ok(())
}

fn judge_direction(x: &ScriptDirection) -> CaseResult {
    let (l, g) = parts(x);
    let (a, b) = x.directions();
    if format!("{a:?}") != l || format!("{b:?}") != g || x.line() != a || x.grapheme() != b {
        return Err(format!("{x:?}: directions {a:?} {b:?}, line {:?}, grapheme {:?}", x.line(), x.grapheme()));
    }
    Ok(())
}

fn a_tag(s: &mut Source) -> String {
    let lang = match s.weighted(&[4, 2, 2, 2]) {
        0 => locale(s).split('-').next().unwrap().to_string(),
        1 => s.pick(USUAL).0.split('-').next().unwrap().to_string(),
        2 => {
            let n = 2 + s.below(2);
            (0..n).map(|_| char::from(b'a' + s.below(26) as u8)).collect()
        }
        _ => "und".to_string(),
    };
    let mut t = lang;
    if s.chance(1, 2) {
        t.push('-');
        t.push_str(match s.weighted(&[8, 2, 1]) {
            0 => s.pick(SCRIPTS),
            1 => s.pick(VARIANTS),
            _ => s.pick(NO_SCRIPT),
        });
    }
    if s.chance(1, 3) {
        t.push('-');
        t.push_str(s.pick(&["ZA", "CN", "TW", "HK", "PK", "IR", "AF", "RS", "ME", "IL", "US", "MN", "419", "001", "TR", "SN", "GN", "IQ", "ET"]));
    }
    if s.chance(1, 4) {
        let mut v = ["1996", "oxendict", "valencia", "pinyin", "1901", "abcde", "9xyz"];
        s.shuffle(&mut v);
        for x in &v[..1 + s.below(3)] {
            t.push('-');
            t.push_str(x);
        }
    }
    t
}

fn c26(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = Rc::new(LanguageTagRegistry::new());
    let mut tags: Vec<String> = vec![];
    while tags.len() < 1 + (if tags.is_empty() { 0 } else { 3 }) {
        let t = a_tag(s);
        // Only canonical spelling matters, the registry sees to the rest.
        tags.push(reg.tag(&t).map_err(|e| format!("{t}: {e:?}"))?.as_str().to_string());
    }
    let repo = Rc::new(mem::Repo::single("c", "i", "en", "x"));
    let l = mem::localiser(&repo, &reg, false, false, &tags[0]);
    let mut current = tags[0].clone();
    let n = 1 + s.below(8);
    let steps: Vec<Option<usize>> = (0..n).map(|_| (!s.chance(1, 4)).then(|| s.below(tags.len()))).collect();
    r.case(format!("tags {tags:?}, default languages {steps:?}"));
    let data = |t: &str| l.script_data_for_language_tag(&reg.tag(t).unwrap());
    for t in &tags {
        let d = data(t);
        match likely(t) {
            Some(sc) => {
                let plain = data(&format!("und-{sc}"));
                if show(&d) != show(&plain) {
                    return Err(format!("{t} is written in {sc}: {}, data of the script {}", show(&d), show(&plain)));
                }
                judge_script(&sc, &d, r)?;
                r.class_if(!t.contains(&sc), "likely script");
                r.class_if(t.contains(&sc), "script subtag");
            }
            None => {
                if d.is_some() {
                    return Err(format!("no script is known for {t}, got {}", show(&d)));
                }
                r.class("no likely script");
            }
        }
    }
    for (k, st) in steps.iter().enumerate() {
        if show(&l.script_data()) != show(&data(&current)) || l.default_language().as_str() != current {
            return Err(format!("before step {k}: default language {}, script data {}, expected those of {current}: {}", l.default_language().as_str(), show(&l.script_data()), show(&data(&current))));
        }
        match st {
            Some(i) => {
                l.defaults(Some(reg.tag(&tags[*i]).unwrap()), s.bool().then(|| true), s.bool().then(|| false)).map_err(|e| format!("{e:?}"))?;
                current = tags[*i].clone();
            }
            None => {
                l.defaults(None, Some(s.bool()), Some(s.bool())).map_err(|e| format!("{e:?}"))?;
                let _ = l.format("c", "i", &Default::default(), &reg.tag(&tags[s.below(tags.len())]).unwrap(), None, None);
            }
        }
    }
    if show(&l.script_data()) != show(&data(&current)) {
        return Err(format!("at the end: script data {}, expected those of {current}: {}", show(&l.script_data()), show(&data(&current))));
    }
    r.nontrivial = tags.iter().any(|t| data(t).is_some()) && steps.iter().flatten().any(|i| tags[*i] != tags[0]);
    Ok(())
}

fn fixed_count() -> usize {
    SCRIPTS.len() + VARIANTS.len() + NO_SCRIPT.len() + USUAL.len() + 8
}

fn c26_fixed(i: usize, r: &mut Rec) -> CaseResult {
    let reg = Rc::new(LanguageTagRegistry::new());
    let repo = Rc::new(mem::Repo::single("c", "i", "en", "x"));
    let l = mem::localiser(&repo, &reg, false, false, "en");
    let data = |t: &str| l.script_data_for_language_tag(&reg.tag(t).unwrap());
    r.nontrivial = true;
    let all: Vec<&str> = SCRIPTS.iter().chain(VARIANTS).chain(NO_SCRIPT).copied().collect();
    if i < all.len() {
        r.case(format!("script {}", all[i]));
        return judge_script(all[i], &data(&format!("und-{}", all[i])), r);
    }
    let i = i - all.len();
    if i < USUAL.len() {
        let (t, sc) = USUAL[i];
        r.case(format!("{t} in {sc}"));
        let (a, b) = (data(t), data(&format!("und-{sc}")));
        if show(&a) != show(&b) || a.is_none() {
            return Err(format!("{t} is written in {sc}: {}, data of the script {}", show(&a), show(&b)));
        }
        return Ok(());
    }
    let d = [
        ScriptDirection::TopToBottomLeftToRight,
        ScriptDirection::TopToBottomRightToLeft,
        ScriptDirection::BottomToTopLeftToRight,
        ScriptDirection::BottomToTopRightToLeft,
        ScriptDirection::LeftToRightTopToBottom,
        ScriptDirection::LeftToRightBottomToTop,
        ScriptDirection::RightToLeftTopToBottom,
        ScriptDirection::RightToLeftBottomToTop,
    ];
    r.case(format!("{:?}", d[i - USUAL.len()]));
    judge_direction(&d[i - USUAL.len()])
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C26",
    rule: "random language tags with and without script, region and variant; their script data compared with that of the (likely) script, with ICU's direction, and with a list of undisputed categories; histories of changes of the default language. Fixed part: every script of Unicode, non-scripts, languages with their usual script, all directions. Non-trivial: data exist and the default language changes.",
    tape: 140,
    quick: 60_000,
    thorough: 2_000_000,
    level: "exploration",
    assumptions: &["the likely subtags and directions of ICU are right"],
    run: c26,
    fixed: Some((fixed_count, c26_fixed)),
}];
