//! C05-C15: the pattern language, against the reference parser and evaluator.
use crate::engine::{no_panic, CaseResult, Prop, Rec, Source};
use crate::gen::*;
use crate::mem::{self, Repo};
use crate::model::*;
use fixed_decimal::FixedDecimal;
use i18n_localiser::{FormatterError, Localiser, LocaliserError};
use i18n_utility::{LanguageTag, LanguageTagRegistry, PlaceholderValue};
use crate::Rc;
use std::str::FromStr;

pub struct One {
    pub reg: Rc<LanguageTagRegistry>,
    pub l: Localiser,
    pub tag: Rc<LanguageTag>,
    pub caching: bool,
}

impl One {
    pub fn new(s: &mut Source, string: &str, tag: &str) -> One {
        let reg = Rc::new(LanguageTagRegistry::new());
        let repo = Rc::new(Repo::single("c", "i", tag, string));
        let caching = s.bool();
        let l = mem::localiser(&repo, &reg, s.bool(), s.bool(), s.pick(&["en", "ar", "de"]));
        let t = reg.tag(tag).unwrap();
        One { reg, l, tag: t, caching }
    }
    pub fn raw(&self, values: &Values) -> Result<(Rc<String>, Rc<LanguageTag>), LocaliserError> {
        self.l.format("c", "i", &to_hash(values), &self.tag, Some(false), Some(self.caching))
    }
    pub fn format(&self, values: &Values) -> Result<String, String> {
        match self.raw(values) {
            Ok((t, tag)) => {
                if tag.as_str() != self.tag.as_str() {
                    return Ok(format!("(wrong tag {}) {t}", tag.as_str()));
                }
                Ok(t.to_string())
            }
            Err(e) => Err(format!("{e:?}")),
        }
    }
}

pub fn registry() -> Rc<LanguageTagRegistry> {
    Rc::new(LanguageTagRegistry::new())
}

struct Summary {
    pattern: Pattern,
    branches: usize,
    depth: usize,
    texts: usize,
    errors: usize,
}

/// Generates a pattern and 1-3 value sets and compares the outcomes of one localiser with the model.
fn compare_generated(s: &mut Source, r: &mut Rec, mut g: PatGen, faults: usize) -> Result<Summary, String> {
    let reg = registry();
    let tag = locale(s);
    let long = s.long(300);
    r.class_if(long, "many patterns, many formats");
    if long {
        let many = s.bool();
        g.max_parts = if many { 3 } else { 40 };
        g.max_named = if many { 40 } else { 3 };
    }
    let chain = !long && s.long(300);
    r.class_if(chain, "long chain of branches");
    let faults = if chain { 0 } else { faults };
    let pattern = if chain { g.chain(s) } else { g.pattern(s) };
    let string = render(s, &pattern);
    let n = 1 + s.below(if long { 40 } else { 3 });
    let sets: Vec<Values> = (0..n).map(|_| g.values(s, &reg, faults)).collect();
    r.case(format!("{tag}: {string:?} with {}", sets.iter().map(show_values).collect::<Vec<_>>().join(" / ")));
    // The model parser must agree with the generator (otherwise the harness is wrong).
    match parse(&string) {
        Parsed::Accept { soft: false, .. } | Parsed::Plain => {}
        other => return Err(format!("harness: generated pattern {string:?} is {other:?}")),
    }
    let one = One::new(s, &string, tag);
    let mut sum = Summary { pattern, branches: 0, depth: 0, texts: 0, errors: 0 };
    for v in &sets {
        let (out, b, d) = eval(tag, &sum.pattern, v);
        sum.branches += b;
        sum.depth = sum.depth.max(d);
        match &out {
            Out::Text(_) => sum.texts += 1,
            Out::Err(_) => sum.errors += 1,
            Out::Unspec => {}
        }
        let expected = if parse_plain(&string) { Out::Text(string.clone()) } else { out };
        let actual = one.format(v);
        compare(&format!("values {}", show_values(v)), &(expected, false), &actual)?;
    }
    r.class_if(sum.texts > 0, "formats to text");
    r.class_if(sum.errors > 0, "must fail");
    r.class_if(sum.branches > 0, "takes branches");
    r.class_if(sum.depth > 1, "nested branches");
    r.class_if(n > 1 && one.caching, "several formats of a cached string");
    Ok(sum)
}

fn parse_plain(t: &str) -> bool {
    !t.contains(GRAMMAR)
}

fn has(p: &Pattern, f: impl Fn(&Part) -> bool + Copy) -> bool {
    p.main.iter().any(f) || p.named.iter().any(|n| n.1.iter().any(f))
}

// ---------------------------------------------------------------- C05

fn c05(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = registry();
    let tag = locale(s);
    let mode = s.below(5);
    if mode == 0 {
        let long = s.long(200);
        let t = plain_text(s, if long { 5000 } else { 12 });
        let v: Values = (0..s.below(3)).map(|_| (ident(s), any_value(s, &reg))).collect();
        r.case(format!("plain {t:?} with {}", show_values(&v)));
        r.class("plain");
        r.nontrivial = !t.is_empty();
        let one = One::new(s, &t, tag);
        for _ in 0..2 {
            compare("plain", &(Out::Text(t.clone()), false), &one.format(&v))?;
        }
        return Ok(());
    }
    if mode == 1 {
        let long = s.long(200);
        let t = if s.bool() { text(s, if long { 5000 } else { 16 }) } else { soup(s) };
        r.case(format!("literal request for {t:?}"));
        r.class("literal request");
        r.nontrivial = !parse_plain(&t);
        let one = One::new(s, &t, tag);
        for i in 0..3 {
            let got = match i {
                0 | 2 => one.l.literal("c", "i", &one.tag, None, Some(one.caching)),
                _ => {
                    one.l.defaults(Some(Rc::clone(&one.tag)), None, Some(one.caching)).map_err(|e| format!("{e:?}"))?;
                    one.l.literal_with_defaults("c", "i")
                }
            };
            let got = got.map(|x| x.0.to_string()).map_err(|e| format!("{e:?}"));
            compare("literal", &(Out::Text(t.clone()), false), &got)?;
        }
        return Ok(());
    }
    // Escaped text in segments.
    let long = s.long(200);
    let n = 1 + s.below(if long { 100 } else { 4 });
    let segs: Vec<(String, bool)> = (0..n).map(|_| (text(s, if long { 100 } else { 8 }), s.bool())).collect();
    let mut meant = String::new();
    let mut written = String::new();
    for (i, (t, lit)) in segs.iter().enumerate() {
        meant.push_str(t);
        if *lit || (i == 0 && mode > 2 && t.starts_with(is_pws)) || (mode > 2 && written.is_empty() && t.starts_with(is_pws)) {
            written.push_str(&literal_pattern(t));
        } else {
            written.push_str(&escape(t));
        }
    }
    let (string, values) = match mode {
        2 => (written, Values::new()),
        3 => (
            format!("{{v select other#n}}#{{n{}{written}}}", ws(s)),
            Values::from([("v".to_string(), PlaceholderValue::String("q".to_string()))]),
        ),
        _ => (
            format!("{{v plural other#n}}#{{m x}}{{n{}{written}}}", ws(s)),
            Values::from([("v".to_string(), PlaceholderValue::Unsigned(gen_u128(s)))]),
        ),
    };
    r.case(format!("{string:?} means {meant:?}"));
    r.class(if mode == 2 { "main string" } else { "named string" });
    r.class_if(segs.iter().any(|x| x.1), "literal pattern");
    r.class_if(segs.iter().any(|x| !x.1 && x.0.contains(GRAMMAR)), "escaped character");
    r.class_if(segs.iter().any(|x| x.1 && x.0.contains('`')), "doubled grave accent");
    r.nontrivial = meant.contains(GRAMMAR);
    let one = One::new(s, &string, tag);
    for _ in 0..2 {
        compare("text", &(Out::Text(meant.clone()), false), &one.format(&values))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

const VOCAB: &[&str] = &[
    "{", "}", "`", "#", " ", "a", "b", "{a}", "decimal", "plural", "select", "other#", "one#", "n", "#{n x}", "{n #}", "x",
    ".", "sign#auto", "group#min2", "date#full", "date_time", "ordinal", "``", "_", "{#dump a}", "{#dump# a}", "other#n",
    "{v plural other#n}", "{w select q#n other#n}", "{`x`}", "\n", "hour#24", "\u{200e}", "é",
];

pub fn soup(s: &mut Source) -> String {
    let n = s.below(14);
    (0..n).map(|_| if s.chance(1, 8) { any_char(s).to_string() } else { s.pick(VOCAB).to_string() }).collect()
}

pub fn split_tokens(t: &str) -> Vec<String> {
    let mut v: Vec<(u8, String)> = vec![];
    for c in t.chars() {
        let k = if is_pws(c) {
            0
        } else if GRAMMAR.contains(&c) {
            1
        } else if is_ps(c) {
            2
        } else {
            3
        };
        match v.last_mut() {
            Some((k2, x)) if *k2 == k && k != 1 => x.push(c),
            _ => v.push((k, c.to_string())),
        }
    }
    v.into_iter().map(|x| x.1).collect()
}

/// One or two token edits.
pub fn mutate_text(s: &mut Source, t: &str) -> String {
    let mut v = split_tokens(t);
    for _ in 0..1 + s.below(2) {
        if v.is_empty() {
            v.push("{".to_string());
            continue;
        }
        let i = s.below(v.len());
        match s.below(7) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, s.pick(&["{", "}", "`", "#", " ", ".", "a", "other", "\t"]).to_string()),
            2 => v[i] = s.pick(&["{", "}", "`", "#", " ", ".", "a", "other", "_"]).to_string(),
            3 => {
                let x = v[i].clone();
                v.insert(i, x);
            }
            4 => {
                let j = s.below(v.len());
                v.swap(i, j);
            }
            5 => v.truncate(i),
            _ => {
                let j = s.below(v.len());
                v[i] = v[j].clone();
            }
        }
    }
    v.concat()
}

/// Breaks a side condition or structure in the abstract syntax.
fn mutate_ast(s: &mut Source, p: &mut Pattern) {
    let names: Vec<String> = p.named.iter().map(|n| n.0.clone()).collect();
    let mut lists: Vec<&mut Vec<Part>> = p.named.iter_mut().map(|n| &mut n.1).collect();
    lists.push(&mut p.main);
    let parts: Vec<&mut Part> = lists.into_iter().flatten().filter(|p| !matches!(p, Part::Text(_) | Part::Lit(_) | Part::Num)).collect();
    if parts.is_empty() || s.chance(1, 8) {
        match s.below(3) {
            0 if !p.named.is_empty() => {
                let n = s.pick(&p.named).clone();
                p.named.push(n);
            }
            1 => p.main.push(Part::Str("dup".to_string())),
            _ => p.main.push(Part::Sel { kind: Kind::Select, name: "msel".to_string(), arms: vec![("other".to_string(), "_".to_string())] }),
        }
        return;
    }
    let mut parts = parts;
    let i = s.below(parts.len());
    match &mut *parts[i] {
        Part::Dec { opts, .. } | Part::DT { opts, .. } => {
            let k = s.pick(&["sign", "group", "date", "time", "calendar", "Sign", "other", "hour"]).to_string();
            let v = s.pick(&["auto", "full", "never", "gregory", "iso", "x", "Auto", "min2", "short", "24"]).to_string();
            let at = s.below(opts.len() + 1);
            opts.insert(at, (k, v));
        }
        Part::Sel { arms, kind, .. } => match s.below(6) {
            0 => {
                arms.retain(|a| a.0 != "other");
            }
            1 => {
                let v = s.pick(&["missing", "_", "Other", "n0"]).to_string();
                let i = s.below(arms.len());
                arms[i].1 = v;
            }
            2 => {
                let k = s.pick(&["Other", "three", "one1", "x", "two", "zero"]).to_string();
                let v = arms[0].1.clone();
                arms.push((k, v));
            }
            3 => *kind = *s.pick(&[Kind::Plural, Kind::Ordinal, Kind::Select]),
            4 => arms.clear(),
            _ => {
                // any named string, so also later ones and cycles
                let i = s.below(arms.len());
                arms[i].1 = s.pick(&names).clone();
            }
        },
        Part::Cmd { name, delayed, params } => match s.below(3) {
            0 => *name = s.pick(&["missing", "fail", "Dump"]).to_string(),
            1 => *delayed = !*delayed,
            _ => params.clear(),
        },
        Part::Str(n) => *n = s.pick(&["a", "b", "name"]).to_string(),
        _ => {}
    }
}

fn c06(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = registry();
    let tag = *s.pick(&["en", "en", "ar", "fr", "pl"]);
    let mode = s.weighted(&[4, 4, 4, 2]);
    let mut g = PatGen { max_parts: 4, max_named: 4, ..Default::default() };
    let (string, values, respelt) = if mode == 3 {
        let t = soup(s);
        let mut v = Values::new();
        for n in ["a", "b", "n", "x", "v", "w"] {
            if s.chance(4, 5) {
                v.insert(n.to_string(), if s.bool() { PlaceholderValue::Unsigned(1) } else { PlaceholderValue::String("q".to_string()) });
            }
        }
        (t, v, None)
    } else {
        let long = s.long(250);
        r.class_if(long, "long pattern");
        let mut p = match (long, s.below(3)) {
            (true, 0) => g.chain(s),
            (true, k) => {
                g.max_parts = if k == 1 { 40 } else { 3 };
                g.max_named = if k == 1 { 3 } else { 40 };
                g.pattern(s)
            }
            _ => g.pattern(s),
        };
        if mode == 2 {
            mutate_ast(s, &mut p);
        }
        let mut t = render(s, &p);
        let v = g.values(s, &reg, 0);
        let mut re = None;
        if mode == 1 {
            t = mutate_text(s, &t);
        } else {
            // The same elements with other white space.
            re = Some(render(s, &p));
        }
        (t, v, re)
    };
    r.case(format!("{tag}: {string:?} with {}", show_values(&values)));
    let parsed = parse(&string);
    r.class(match (&parsed, mode) {
        (Parsed::Plain, _) => "plain",
        (Parsed::Accept { soft: true, .. }, _) => "may be rejected",
        (Parsed::Accept { .. }, 0) => "valid",
        (Parsed::Accept { .. }, _) => "valid after mutation",
        (Parsed::Reject(_), 1) => "invalid by token mutation",
        (Parsed::Reject(_), 2) => "invalid by condition",
        (Parsed::Reject(_), _) => "invalid soup",
        (Parsed::Wild, _) => "unspecified",
    });
    r.nontrivial = matches!(parsed, Parsed::Accept { .. } | Parsed::Reject(_));
    let e = expect(tag, &string, &values);
    let one = One::new(s, &string, tag);
    let a = one.format(&values);
    compare("format", &e, &a)?;
    if let Some(re) = respelt {
        let a2 = One::new(s, &re, tag).format(&values);
        if a2.is_ok() != a.is_ok() || (a.is_ok() && a != a2) {
            return Err(format!("other white space {re:?} gives {a2:?} instead of {a:?}"));
        }
    }
    Ok(())
}

/// All strings of up to 6 tokens of a small vocabulary.
const SMALL: &[&str] = &["{", "}", "`", "#", " ", "a", "."];
const SMALL_MAX: usize = 6;
fn small_count() -> usize {
    (0..=SMALL_MAX).map(|n| SMALL.len().pow(n as u32)).sum::<usize>().div_ceil(CHUNK) + small2_count()
}
const CHUNK: usize = 64;
fn small_string(mut i: usize) -> Option<String> {
    for n in 0..=SMALL_MAX {
        let c = SMALL.len().pow(n as u32);
        if i < c {
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(SMALL[i % SMALL.len()]);
                i /= SMALL.len();
            }
            return Some(t);
        }
        i -= c;
    }
    None
}
/// All strings `{x` + up to 5 tokens + `}#{n #}` of a vocabulary of pattern elements.
const INNER: &[&str] = &[" ", "#", "n", "other", "plural", "}", "decimal", "sign", "auto", "{"];
fn small2_count() -> usize {
    (INNER.len().pow(5) + INNER.len().pow(4)).div_ceil(CHUNK)
}
fn small2_string(i: usize) -> Option<String> {
    let (n, mut i) = if i < INNER.len().pow(4) { (4, i) } else { (5, i - INNER.len().pow(4)) };
    if i >= INNER.len().pow(n) {
        return None;
    }
    let mut t = "{x ".to_string();
    for _ in 0..n {
        t.push_str(INNER[i % INNER.len()]);
        i /= INNER.len();
    }
    t.push_str("}#{n #}");
    Some(t)
}
fn c06_small(i: usize, r: &mut Rec) -> CaseResult {
    r.nontrivial = true;
    r.class("bounded-exhaustive block");
    let first = (0..=SMALL_MAX).map(|n| SMALL.len().pow(n as u32)).sum::<usize>().div_ceil(CHUNK);
    let values = Values::from([
        ("a".to_string(), PlaceholderValue::String("V".to_string())),
        ("x".to_string(), PlaceholderValue::Unsigned(7)),
    ]);
    let reg = registry();
    for j in 0..CHUNK {
        let t = if i < first { small_string(i * CHUNK + j) } else { small2_string((i - first) * CHUNK + j) };
        let Some(t) = t else { break };
        if j == 0 {
            r.case(format!("{CHUNK} strings from {t:?}"));
        }
        let e = expect("en", &t, &values);
        let a = mem::format_string(&t, "en", &to_hash(&values), &reg, false)
            .map(|x| x.0.to_string())
            .map_err(|e| format!("{e:?}"));
        compare(&format!("{t:?}"), &e, &a)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn c07(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = registry();
    let tag = locale(s);
    match s.weighted(&[8, 4, 4, 1, 1, 1, 1]) {
        0 => {
            // any stored string, any values
            let mut g = PatGen::default();
            let (t, v) = match s.below(4) {
                0 => {
                    let t = soup(s);
                    let v: Values = ["a", "b", "n", "x", "v", "w"].iter().map(|n| (n.to_string(), any_value(s, &reg))).collect();
                    (t, v)
                }
                1 => {
                    let t = text(s, 30);
                    (t, (0..s.below(4)).map(|_| (ident(s), any_value(s, &reg))).collect())
                }
                _ => {
                    let mut p = g.pattern(s);
                    if s.bool() {
                        mutate_ast(s, &mut p);
                    }
                    let t = render(s, &p);
                    let t = if s.bool() { mutate_text(s, &t) } else { t };
                    (t, g.values(s, &reg, 6))
                }
            };
            r.case(format!("{tag}: {t:?} with {}", show_values(&v)));
            r.class("format");
            r.nontrivial = !parse_plain(&t);
            let one = One::new(s, &t, tag);
            let a = no_panic("format", || one.format(&v))?;
            let b = no_panic("format", || one.format(&v))?;
            let fresh = One::new(s, &t, tag);
            let c = no_panic("format", || fresh.format(&v))?;
            for x in [b, c] {
                if a.is_ok() != x.is_ok() || (a.is_ok() && a != x) {
                    return Err(format!("not repeatable: {a:?} then {x:?}"));
                }
            }
            let _ = no_panic("literal", || fresh.l.literal("c", "i", &fresh.tag, None, None).is_ok())?;
        }
        1 => {
            // conversion of any text as date or time
            let t = if s.chance(1, 4) { text(s, 10) } else { iso_ish(s) };
            let opts = PatGen::default().date_opts(s);
            let p = Pattern { main: vec![Part::DT { name: "x".to_string(), opts }], named: vec![] };
            let string = render(s, &p);
            r.case(format!("{tag}: {string:?} with {t:?}"));
            r.class("ISO text");
            r.nontrivial = t.len() >= 4;
            let v = Values::from([("x".to_string(), PlaceholderValue::String(t))]);
            let one = One::new(s, &string, tag);
            let a = no_panic("format", || one.format(&v))?;
            let b = no_panic("format", || one.format(&v))?;
            if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) {
                return Err(format!("not repeatable: {a:?} then {b:?}"));
            }
        }
        2 => {
            // any number or date of any kind, including extreme ones
            let v = match s.below(3) {
                0 => gen_number(s),
                1 => date_time_value(s),
                _ => any_value(s, &reg),
            };
            let part = match s.below(4) {
                0 => Part::Dec { name: "x".to_string(), opts: PatGen::default().decimal_opts(s) },
                1 => Part::DT { name: "x".to_string(), opts: PatGen::default().date_opts(s) },
                2 => Part::Sel { kind: Kind::Plural, name: "x".to_string(), arms: vec![("other".to_string(), "n".to_string())] },
                _ => Part::Sel { kind: Kind::Ordinal, name: "x".to_string(), arms: vec![("other".to_string(), "n".to_string())] },
            };
            let p = Pattern { main: vec![part], named: vec![("n".to_string(), vec![Part::Num])] };
            let string = render(s, &p);
            r.case(format!("{tag}: {string:?} with {}", mem::show(&v)));
            r.class("value kinds");
            r.nontrivial = true;
            let one = One::new(s, &string, tag);
            let _ = no_panic("format", || one.format(&Values::from([("x".to_string(), v)])))?;
        }
        3 => {
            // built-in commands
            let n = 1 + s.below(4);
            let params: Vec<PlaceholderValue> = (0..n).map(|_| any_value(s, &reg)).collect();
            r.case(format!("commands with {}", params.iter().map(mem::show).collect::<Vec<_>>().join(", ")));
            r.class("built-in commands");
            r.nontrivial = true;
            let _ = no_panic("file_path", || i18n_localiser::file_path(params.clone()).is_ok())?;
            let _ = no_panic("english_a_or_an", || i18n_localiser::english_a_or_an(params.clone()).is_ok())?;
        }
        4 => {
            // tags and tokenising
            let t = if s.bool() { text(s, 20) } else { format!("{}{}", locale(s), text(s, 4)) };
            r.case(format!("lookup and tokenise {t:?}"));
            r.class("lookup and tokenise");
            r.nontrivial = t.chars().count() >= 2;
            let _ = no_panic("tag", || reg.tag(&t).is_ok())?;
            no_panic("tokenise", || i18n_lexer::LexerIterator::try_new(&t, "{}`#", &icu()).map(|x| x.take(1000).count()).ok())?;
        }
        5 => {
            // unknown components, identifiers, languages, other API calls
            let repo = Rc::new(Repo::single("c", "i", tag, "x {a}"));
            let l = mem::localiser(&repo, &reg, s.bool(), s.bool(), locale(s));
            let (c, i) = (s.pick(&["c", "", "d", "/"]).to_string(), s.pick(&["i", "", "j"]).to_string());
            let t = reg.tag(locale(s)).unwrap();
            r.case(format!("request {c:?} {i:?} {}", t.as_str()));
            r.class("requests");
            r.nontrivial = true;
            let data = i18n_utility::LocalisationData {
                component: c.clone(),
                identifier: i.clone(),
                values: if s.bool() { None } else { Some([("a".to_string(), any_value(s, &reg))].into()) },
            };
            let v = [("a".to_string(), any_value(s, &reg))].into();
            let (f, k) = (*s.pick(&[None, Some(true), Some(false)]), *s.pick(&[None, Some(true), Some(false)]));
            no_panic("requests", || {
                let _ = l.format(&c, &i, &v, &t, f, k);
                let _ = l.literal(&c, &i, &t, f, k);
                let _ = l.format_localisation_data(&data, &t, f, k);
                let _ = l.defaults(Some(Rc::clone(&t)), f, k);
                let _ = l.format_with_defaults(&c, &i, &v);
                let _ = l.literal_with_defaults(&c, &i);
                let _ = l.format_localisation_data_with_defaults(&data);
                let _ = (l.script_data(), l.script_data_for_language_tag(&t), l.default_language());
            })?;
        }
        _ => {
            // size: long texts, many patterns, deep chains of branches
            let limit = if s.chance(1, 20) { MAX_LARGE } else { MAX_SIZE };
            let n = 1 + s.below(limit);
            let (string, values) = big(s, n);
            r.case(format!("size {n}: {}", &string[..string.len().min(60)]));
            r.class("large strings");
            r.nontrivial = n > 20;
            let one = One::new(s, &string, tag);
            let a = no_panic("format", || one.format(&values))?;
            compare("format", &expect(tag, &string, &values), &a)?;
        }
    }
    Ok(())
}

pub const MAX_SIZE: usize = 200;
pub const MAX_LARGE: usize = 4000;

pub fn big(s: &mut Source, n: usize) -> (String, Values) {
    let u = |k: u128| PlaceholderValue::Unsigned(k);
    match s.below(6) {
        0 => ("{".repeat(n), Values::new()),
        1 => (format!("{}{}", "`{".repeat(n), "`".repeat(n % 3)), Values::new()),
        2 => {
            // chain of branches
            let mut t = format!("{{x{n} plural other#n{n}}}#{{n0 #}}");
            let mut v = Values::from([(format!("x{n}"), u(n as u128))]);
            for i in 1..=n {
                t.push_str(&format!("{{n{i} #{{x{} plural other#n{}}}}}", i - 1, i - 1));
                v.insert(format!("x{}", i - 1), u(i as u128));
            }
            (t, v)
        }
        3 => {
            let mut t = String::new();
            let mut v = Values::new();
            for i in 0..n {
                t.push_str(&format!("{{p{i}}},"));
                v.insert(format!("p{i}"), PlaceholderValue::String(format!("{i}#")));
            }
            (t, v)
        }
        4 => {
            let mut t = "{x select".to_string();
            for i in 0..n {
                t.push_str(&format!(" k{i}#b{i}"));
            }
            t.push_str(" other#b0}#");
            for i in 0..n {
                t.push_str(&format!("{{b{i} {i}}}"));
            }
            (t, Values::from([("x".to_string(), PlaceholderValue::String(format!("k{}", n - 1)))]))
        }
        _ => (format!("{{`{}`}}", "``{}#x".repeat(n)), Values::new()),
    }
}

// ---------------------------------------------------------------- C08

fn c08(s: &mut Source, r: &mut Rec) -> CaseResult {
    let g = PatGen { weights: [5, 1, 8, 0, 0, 1, 2, 0, 1], max_named: 2, ..Default::default() };
    let sum = compare_generated(s, r, g, 2)?;
    r.nontrivial = has(&sum.pattern, |p| matches!(p, Part::Str(_)));
    // The error for a missing value names it.
    if s.chance(1, 4) {
        let reg = registry();
        let n = 1 + s.below(3);
        let mut g = PatGen::default();
        let names: Vec<String> = (0..n).map(|_| g.unique(s)).collect();
        let missing = s.below(n);
        let mut string = String::new();
        let mut v = Values::new();
        for (i, name) in names.iter().enumerate() {
            string.push_str(&escape(&text(s, 4)));
            string.push_str(&render_part(s, &Part::Str(name.clone())));
            if i != missing {
                v.insert(name.clone(), string_value(s, &reg));
            }
        }
        r.case(format!("{string:?} with {}", show_values(&v)));
        r.class("missing value");
        match One::new(s, &string, "en").raw(&v) {
            Err(LocaliserError::Formatter(FormatterError::PlaceholderValue(_, p))) if p == names[missing] => {}
            other => return Err(format!("expected an error naming {:?}, got {other:?}", names[missing])),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C09

fn c09(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = registry();
    let tag = locale(s);
    let opts = PatGen::default().decimal_opts(s);
    let p = Pattern { main: vec![Part::Text("a".to_string()), Part::Dec { name: "n".to_string(), opts: opts.clone() }, Part::Text("b".to_string())], named: vec![] };
    let string = render(s, &p);
    let one = One::new(s, &string, tag);
    let v = if s.chance(1, 8) { any_value(s, &reg) } else { gen_number(s) };
    r.case(format!("{tag}: {string:?} with {}", mem::show(&v)));
    let values = Values::from([("n".to_string(), v.clone())]);
    let expected = eval(tag, &p, &values).0;
    let a = one.format(&values);
    compare("decimal", &(expected, false), &a)?;
    let Some(d) = number_of(&v) else {
        r.class("not a finite number");
        r.nontrivial = true;
        return if a.is_err() { Ok(()) } else { Err("a value that is not a finite number was formatted".to_string()) };
    };
    r.class_if(!opts.is_empty(), "options");
    r.class_if(opts.iter().enumerate().any(|(i, o)| opts[..i].iter().any(|p| p.0 == o.0)), "repeated option");
    r.class_if(d.sign() == fixed_decimal::Sign::Negative, "negative");
    r.nontrivial = d.magnitude_range().end() - d.magnitude_range().start() >= 3 || !opts.is_empty();
    // Equal numbers of other kinds give the same text.
    let mut others = vec![];
    let t = d.to_string();
    if let Ok(n) = t.parse::<i128>() {
        if t == n.to_string() {
            others.push(PlaceholderValue::Integer(n));
            if n >= 0 {
                others.push(PlaceholderValue::Unsigned(n as u128));
            }
            let f = n as f64;
            if f.abs() < 9e15 && f as i128 == n {
                others.push(PlaceholderValue::Float(f));
            }
        }
    } else if let Ok(n) = t.parse::<u128>() {
        others.push(PlaceholderValue::Unsigned(n));
    }
    others.push(PlaceholderValue::FixedDecimal(FixedDecimal::from_str(&t).unwrap()));
    if let PlaceholderValue::FixedDecimal(_) = v {
        if d.sign() == fixed_decimal::Sign::Positive {
            others.clear();
        }
    }
    for o in others {
        let b = one.format(&Values::from([("n".to_string(), o.clone())]));
        if b != a {
            return Err(format!("{} gives {b:?}, {} gives {a:?}", mem::show(&o), mem::show(&v)));
        }
    }
    // No digits are lost: in English without grouping the text is the number itself.
    let plain = One::new(s, "{n decimal group#never}", "en").format(&Values::from([("n".to_string(), v.clone())]));
    if plain != Ok(t.clone()) {
        return Err(format!("plain text of {t} is {plain:?}"));
    }
    Ok(())
}

// ---------------------------------------------------------------- C10, C11

fn c10(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = registry();
    let tag = locale(s);
    let opts = PatGen::default().date_opts(s);
    let p = Pattern { main: vec![Part::Text("a ".to_string()), Part::DT { name: "n".to_string(), opts: opts.clone() }, Part::Text("b".to_string())], named: vec![] };
    let string = render(s, &p);
    let v = if s.chance(1, 8) { any_value(s, &reg) } else { date_time_value(s) };
    let values = Values::from([("n".to_string(), v.clone())]);
    r.case(format!("{tag}: {string:?} with {}", mem::show(&v)));
    let e = eval(tag, &p, &values).0;
    match &v {
        PlaceholderValue::Date(_) => r.class("date"),
        PlaceholderValue::Time(_) => r.class("time"),
        PlaceholderValue::DateTime(_) => r.class("date and time"),
        _ => r.class("other kind"),
    }
    r.class_if(opts.iter().any(|o| o.0 == "calendar"), "calendar");
    r.class_if(matches!(e, Out::Err(_)), "must fail");
    r.nontrivial = !matches!(e, Out::Unspec);
    let one = One::new(s, &string, tag);
    for _ in 0..2 {
        compare("date_time", &(e.clone(), false), &one.format(&values))?;
    }
    Ok(())
}

fn c11(s: &mut Source, r: &mut Rec) -> CaseResult {
    let tag = locale(s);
    let opts = PatGen::default().date_opts(s);
    let p = Pattern { main: vec![Part::DT { name: "n".to_string(), opts: opts.clone() }], named: vec![] };
    let string = render(s, &p);
    let one = One::new(s, &string, tag);
    let put = |v: PlaceholderValue| Values::from([("n".to_string(), v)]);
    if s.chance(3, 5) {
        let (t, w) = iso_text(s);
        r.case(format!("{tag}: {string:?} with {t:?}"));
        r.class(match &w {
            When::Date(_) => "date",
            When::Time(_) => "time",
            When::Both(_) => "date and time",
        });
        r.nontrivial = true;
        match iso(&t) {
            Ok(Some(_)) => {}
            x => return Err(format!("harness: reference reads {t:?} as {x:?}")),
        }
        let typed = match &w {
            When::Date(d) => PlaceholderValue::Date(*d),
            When::Time(x) => PlaceholderValue::Time(*x),
            When::Both(d) => PlaceholderValue::DateTime(d.clone()),
        };
        let e = match date_time_text(tag, &w, &opts) {
            Some(x) => Out::Text(x),
            None => Out::Err("icu".to_string()),
        };
        let a = one.format(&put(PlaceholderValue::String(t)));
        compare("iso text", &(e, false), &a)?;
        let b = one.format(&put(typed));
        if a.is_ok() != b.is_ok() || (a.is_ok() && a != b) {
            return Err(format!("the typed value gives {b:?}, the text {a:?}"));
        }
        return Ok(());
    }
    // Faulty texts: a documented one with one component spoilt, or soup.
    let t = if s.chance(1, 4) {
        iso_ish(s)
    } else if s.chance(1, 3) {
        // A documented text with one character inserted, removed, or replaced.
        let mut x: Vec<char> = iso_text(s).0.chars().collect();
        let at = s.below(x.len() + 1);
        let c = *s.pick(&['+', '-', ':', 'T', 'Z', '.', ',', '0', '1', '9', ' ', 'x', 'é']);
        match s.below(3) {
            0 if at < x.len() => {
                x.remove(at);
            }
            1 if at < x.len() => x[at] = c,
            _ => x.insert(at, c),
        }
        x.into_iter().collect()
    } else {
        let (y, m, d) = gen_ymd(s);
        let (y, m, d) = (y.abs() as i64, m as i64, d as i64);
        let (h, mi, sec, _) = gen_hmsn(s);
        let mut c: Vec<String> =
            vec![format!("{y:04}"), format!("{m:02}"), format!("{d:02}"), format!("{h:02}"), format!("{mi:02}"), format!("{sec:02}")];
        let i = s.below(6);
        let digits = |s: &mut Source, lo: i64, hi: i64| format!("{:02}", s.range(lo, hi));
        c[i] = match (i, s.below(3)) {
            (_, 0) => {
                // not a number
                let mut x: Vec<char> = c[i].chars().collect();
                let k = s.below(x.len());
                x[k] = *s.pick(&['a', 'x', ' ', 'é', '٣', '/', ',', 'o', '_']);
                x.into_iter().collect()
            }
            (1, _) => digits(s, 13, 99),
            (2, 1) => digits(s, 32, 99),
            (2, _) => {
                c[1] = s.pick(&["02", "04", "06", "09", "11", "02"]).to_string();
                if c[1] == "02" && s.bool() {
                    c[0] = s.pick(&["1900", "2023", "2100", "1999"]).to_string();
                    "29".to_string()
                } else if c[1] == "02" {
                    "30".to_string()
                } else {
                    "31".to_string()
                }
            }
            (3, _) => digits(s, 25, 99),
            (4, _) => digits(s, 61, 99),
            (5, _) => digits(s, 62, 99),
            _ => "20x4".to_string(),
        };
        let basic = s.bool();
        let date = if basic { format!("{}{}{}", c[0], c[1], c[2]) } else { format!("{}-{}-{}", c[0], c[1], c[2]) };
        let time = if s.bool() { format!("{}{}{}", c[3], c[4], c[5]) } else { format!("{}:{}:{}", c[3], c[4], c[5]) };
        match s.below(4) {
            0 if i < 3 => date,
            1 if i >= 3 => format!("T{time}"),
            2 if basic => {
                // wrong number of digits
                let mut x = "123456789012".to_string();
                x.truncate(*s.pick(&[1, 2, 3, 5, 6, 7, 9, 10]));
                x
            }
            3 if !basic => format!("T{}", s.pick(&["1", "123", "12345", "1:", "12:3", "12:34:5", "12345x"])),
            _ => format!("{date}T{time}"),
        }
    };
    r.case(format!("{tag}: {string:?} with {t:?}"));
    let e = match iso(&t) {
        Err(()) => {
            r.class("must fail");
            r.nontrivial = true;
            Out::Err("iso".to_string())
        }
        Ok(None) => {
            r.class("unspecified");
            Out::Unspec
        }
        Ok(Some(w)) => {
            r.class("valid by chance");
            r.nontrivial = true;
            match date_time_text(tag, &w, &opts) {
                Some(x) => Out::Text(x),
                None => Out::Err("icu".to_string()),
            }
        }
    };
    compare("iso text", &(e, false), &one.format(&put(PlaceholderValue::String(t))))
}

/// Every day of years around leap years in the basic and extended form, every out-of-range component.
fn c11_fixed_count() -> usize {
    40
}
fn c11_fixed(i: usize, r: &mut Rec) -> CaseResult {
    let reg = registry();
    let years = [1899, 1900, 1904, 1999, 2000, 2001, 2004, 2023, 2024, 2100];
    let year = years[i % years.len()];
    let form = i / years.len();
    r.case(format!("all months 0-13 and days 0-32 of {year}, form {form}"));
    r.nontrivial = true;
    r.class("calendar sweep");
    let len = |m: u32| match m {
        4 | 6 | 9 | 11 => 30,
        2 => {
            if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) {
                29
            } else {
                28
            }
        }
        _ => 31,
    };
    let repo = Rc::new(Repo::single("c", "i", "en", "{n date_time date#short time#short}"));
    let l = mem::localiser(&repo, &reg, false, true, "en");
    let tag = reg.tag("en").unwrap();
    for m in 0..=13u32 {
        for d in 0..=32u32 {
            let date = match form {
                0 | 2 => format!("{year:04}-{m:02}-{d:02}"),
                _ => format!("{year:04}{m:02}{d:02}"),
            };
            let (h, mi) = (d % 26, (m * 5 + d) % 64);
            let t = match form {
                0 | 1 => date,
                2 => format!("{date}T{h:02}:{mi:02}"),
                _ => format!("{date}T{h:02}{mi:02}"),
            };
            let ok_date = (1..=12).contains(&m) && d >= 1 && d <= len(m);
            let time = form >= 2;
            // hour 24 and minute/second 60 are left open
            if time && ok_date && (h == 24 || mi == 60) {
                continue;
            }
            let ok = ok_date && (!time || (h < 24 && mi < 60));
            let v = [("n".to_string(), PlaceholderValue::String(t.clone()))].into();
            let a = l.format("c", "i", &v, &tag, None, None).map(|x| x.0.to_string());
            let e = if !ok {
                None
            } else if time {
                let (h12, ap) = (if h % 12 == 0 { 12 } else { h % 12 }, if h < 12 { "AM" } else { "PM" });
                Some(format!("{m}/{d}/{:02}, {h12}:{mi:02}\u{202f}{ap}", year % 100))
            } else {
                Some(format!("{m}/{d}/{:02}", year % 100))
            };
            match (&e, &a) {
                (None, Err(_)) => {}
                (Some(e), Ok(a)) if e == a => {}
                _ => return Err(format!("{t:?} gives {a:?}, expected {e:?}")),
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C12-C14

fn c12(s: &mut Source, r: &mut Rec) -> CaseResult {
    let g = PatGen { weights: [3, 0, 1, 0, 0, 8, 1, 0, 3], max_parts: 3, ..Default::default() };
    if s.chance(1, 2) {
        let sum = compare_generated(s, r, g, 1)?;
        let plural = has(&sum.pattern, |p| matches!(p, Part::Sel { kind: Kind::Plural, .. }));
        let ordinal = has(&sum.pattern, |p| matches!(p, Part::Sel { kind: Kind::Ordinal, .. }));
        r.class_if(plural, "plural");
        r.class_if(ordinal, "ordinal");
        r.nontrivial = sum.branches > 0;
        return Ok(());
    }
    // The category itself, with all, some or only the other selector.
    let tag = locale(s);
    let ord = s.chance(1, 2);
    let v = if ord && s.chance(7, 8) { PlaceholderValue::Unsigned(gen_u128(s)) } else { gen_number(s) };
    let mut cats: Vec<&str> = CATEGORIES.to_vec();
    if s.bool() {
        cats.retain(|c| *c == "other" || s.chance(2, 3));
    }
    s.shuffle(&mut cats);
    let mut named: Vec<(String, Vec<Part>)> =
        CATEGORIES.iter().map(|c| (format!("s_{c}"), vec![Part::Text(format!("<{c}>"))])).collect();
    s.shuffle(&mut named);
    let kind = if ord { Kind::Ordinal } else { Kind::Plural };
    let arms: Pairs = cats.iter().map(|c| (c.to_string(), format!("s_{c}"))).collect();
    let p = Pattern { main: vec![Part::Sel { kind, name: "n".to_string(), arms }], named };
    let string = render(s, &p);
    r.case(format!("{tag}: {string:?} with {}", mem::show(&v)));
    r.nontrivial = true;
    let expected = match (ord, &v, number_of(&v)) {
        (true, PlaceholderValue::Unsigned(_), Some(d)) | (false, _, Some(d)) => {
            let c = category(tag, ord, &d).unwrap();
            Out::Text(format!("<{}>", if cats.contains(&c) { c } else { "other" }))
        }
        _ => Out::Err("unsuitable".to_string()),
    };
    if let Out::Text(t) = &expected {
        r.class_if(t != "<other>", "category not other");
    }
    let a = One::new(s, &string, tag).format(&Values::from([("n".to_string(), v)]));
    compare("category", &(expected, false), &a)
}

/// Hand-written plural rules for some languages, for 0..=400 and some larger numbers.
fn c12_fixed_count() -> usize {
    RULES.len()
}
type Rule = (&'static str, bool, fn(u128) -> &'static str);
const RULES: &[Rule] = &[
    ("en", false, |n| if n == 1 { "one" } else { "other" }),
    ("en", true, |n| match (n % 10, n % 100) {
        (1, x) if x != 11 => "one",
        (2, x) if x != 12 => "two",
        (3, x) if x != 13 => "few",
        _ => "other",
    }),
    ("fr", true, |n| if n == 1 { "one" } else { "other" }),
    ("de", false, |n| if n == 1 { "one" } else { "other" }),
    ("ja", false, |_| "other"),
    ("ar", false, |n| match n {
        0 => "zero",
        1 => "one",
        2 => "two",
        _ if (3..=10).contains(&(n % 100)) => "few",
        _ if (11..=99).contains(&(n % 100)) => "many",
        _ => "other",
    }),
    ("pl", false, |n| match (n, n % 10, n % 100) {
        (1, ..) => "one",
        (_, 2..=4, x) if !(12..=14).contains(&x) => "few",
        _ => "many",
    }),
    ("ru", false, |n| match (n % 10, n % 100) {
        (1, x) if x != 11 => "one",
        (2..=4, x) if !(12..=14).contains(&x) => "few",
        _ => "many",
    }),
    ("cs", false, |n| match n {
        1 => "one",
        2..=4 => "few",
        _ => "other",
    }),
    ("cy", false, |n| match n {
        0 => "zero",
        1 => "one",
        2 => "two",
        3 => "few",
        6 => "many",
        _ => "other",
    }),
    ("lt", false, |n| match (n % 10, n % 100) {
        (1, x) if !(11..=19).contains(&x) => "one",
        (2..=9, x) if !(11..=19).contains(&x) => "few",
        _ => "other",
    }),
    ("it", true, |n| if [8, 11, 80, 800].contains(&n) { "many" } else { "other" }),
];
fn c12_fixed(i: usize, r: &mut Rec) -> CaseResult {
    let (tag, ord, rule) = RULES[i];
    let reg = registry();
    r.case(format!("{tag} {} for 0..=400", if ord { "ordinals" } else { "cardinals" }));
    r.nontrivial = true;
    r.class("hand-written rules");
    let string = format!(
        "{{n {} zero#z one#o two#t few#f many#m other#x}}#{{z zero}}{{o one}}{{t two}}{{f few}}{{m many}}{{x other}}",
        if ord { "ordinal" } else { "plural" }
    );
    let repo = Rc::new(Repo::single("c", "i", tag, &string));
    let l = mem::localiser(&repo, &reg, false, true, "en");
    let t = reg.tag(tag).unwrap();
    for n in (0..=400u128).chain([1000, 1001, 1002, 10_011, 1_000_011, 1_000_021]) {
        // The rules for millions (as in Italian and French) are left to ICU.
        let v = [("n".to_string(), PlaceholderValue::Unsigned(n))].into();
        let a = l.format("c", "i", &v, &t, None, None).map(|x| x.0.to_string()).map_err(|e| format!("{e:?}"));
        if a.as_deref() != Ok(rule(n)) {
            return Err(format!("{tag} {n}: {a:?}, expected {}", rule(n)));
        }
    }
    Ok(())
}

fn c13(s: &mut Source, r: &mut Rec) -> CaseResult {
    let g = PatGen { weights: [4, 1, 2, 1, 0, 2, 8, 0, 1], max_parts: 3, max_named: 6, ..Default::default() };
    if s.chance(1, 2) {
        let sum = compare_generated(s, r, g, 1)?;
        r.nontrivial = sum.branches > 0 && has(&sum.pattern, |p| matches!(p, Part::Sel { kind: Kind::Select, .. }));
        return Ok(());
    }
    // Near misses of selectors, and select without other.
    let reg = registry();
    let k1 = ident(s);
    let mut k2 = ident(s);
    if k1 == k2 {
        k2.push('2');
    }
    let other = s.bool();
    let v = match s.below(6) {
        0 => k1.clone(),
        1 => k2.clone(),
        2 => k1.to_uppercase(),
        3 => format!("{k1} "),
        4 => k1.chars().skip(1).collect(),
        _ => format!("{k1}{k2}"),
    };
    let string = format!(
        "<{{x select{}{k1}#A{}{k2}#B{}}}>#{{A first}}{{B second}}{{C third}}",
        ws(s),
        ws(s),
        if other { format!("{}other#C", ws(s)) } else { String::new() }
    );
    if k1 == "other" || k2 == "other" {
        return Ok(());
    }
    let value = if s.chance(1, 10) { gen_number(s) } else { text_kind(s, &reg, v.clone()) };
    r.case(format!("{string:?} with {}", mem::show(&value)));
    r.nontrivial = true;
    let text = !matches!(value, PlaceholderValue::Unsigned(_) | PlaceholderValue::Integer(_) | PlaceholderValue::Float(_) | PlaceholderValue::FixedDecimal(_));
    let e = if !text {
        Out::Err("not text".to_string())
    } else if v == k1 {
        Out::Text("<first>".to_string())
    } else if v == k2 {
        Out::Text("<second>".to_string())
    } else if other {
        Out::Text("<third>".to_string())
    } else {
        Out::Err("no branch".to_string())
    };
    r.class_if(!other, "select without other");
    let t = locale(s);
    let a = One::new(s, &string, t).format(&Values::from([("x".to_string(), value)]));
    compare("select", &(e, !other), &a)
}

fn c14(s: &mut Source, r: &mut Rec) -> CaseResult {
    if s.chance(1, 10) {
        // Branches of `select` with number signs: whatever they show, it is nothing of an earlier format.
        let reg = registry();
        let tag = locale(s);
        let mut g = PatGen::default();
        let p = g.mixed(s);
        let string = render(s, &p);
        let sets: Vec<Values> = (0..2 + s.below(3)).map(|_| g.values(s, &reg, 1)).collect();
        r.case(format!("{tag}: {string:?} with {}", sets.iter().map(show_values).collect::<Vec<_>>().join(" then ")));
        r.class("history of a string with select");
        r.nontrivial = true;
        let one = One::new(s, &string, tag);
        for v in &sets {
            compare("mixed", &expect(tag, &string, v), &one.format(v))?;
            let fresh = One::new(s, &string, tag).format(v);
            if format!("{fresh:?}") != format!("{:?}", one.format(v)) {
                return Err(format!("with {}: {:?}, on a fresh localiser {fresh:?}", show_values(v), one.format(v)));
            }
        }
        return Ok(());
    }
    let g = PatGen { weights: [3, 1, 0, 1, 0, 6, 1, 0, 7], max_parts: 5, max_named: 4, ..Default::default() };
    let sum = compare_generated(s, r, g, 1)?;
    r.nontrivial = sum.branches > 0 && has(&sum.pattern, |p| matches!(p, Part::Num));
    Ok(())
}

// ---------------------------------------------------------------- C15

/// A delayed command is executed when the string is formatted, as it is registered by then; others when it is parsed.
fn commands_in_time(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = registry();
    let tag = locale(s);
    let mut parts = vec![];
    let mut placeholders = vec![];
    for k in 0..1 + s.below(3) {
        if s.bool() {
            parts.push(Part::Text(format!("x{}", plain_text(s, 3))));
        }
        let mut params = vec![];
        for _ in 0..s.below(3) {
            params.push(if s.bool() { Param::Lit(text(s, 3)) } else { Param::Ident(s.pick(&["a", "b", "c"]).to_string()) });
        }
        if s.chance(1, 4) {
            let name = format!("p{k}");
            placeholders.push(name.clone());
            parts.push(Part::Str(name));
        }
        let name = s.pick(&["clock", "clock", "later"]).to_string();
        parts.push(Part::Cmd { name, delayed: true, params });
    }
    let p = if s.chance(1, 4) {
        let arms = vec![("other".to_string(), "n".to_string())];
        Pattern { main: vec![Part::Sel { kind: Kind::Select, name: "sel".to_string(), arms }], named: vec![("n".to_string(), parts)] }
    } else {
        Pattern { main: parts, named: vec![] }
    };
    let late = has(&p, |x| matches!(x, Part::Cmd { name, .. } if name == "later"));
    let string = render(s, &p);
    let one = One::new(s, &string, tag);
    let steps = 2 + s.below(4);
    let known_from = s.below(steps + 1);
    r.case(format!("{tag}: {string:?} formatted {steps} times, 'later' registered before step {known_from}, caching {}", one.caching));
    r.class("commands whose result changes");
    r.nontrivial = true;
    for k in 0..steps {
        if k == known_from {
            one.l.command_registry().insert("later", mem::clock).map_err(|e| format!("insert: {e:?}"))?;
        }
        let now = match s.below(6) {
            0 => "fail".to_string(),
            1 => text(s, 3),
            _ => format!("t{}", s.below(4)),
        };
        mem::set_clock(&now);
        let mut v = Values::from([("sel".to_string(), PlaceholderValue::String("q".to_string()))]);
        for n in ["a", "b"] {
            if s.bool() {
                v.insert(n.to_string(), any_value(s, &reg));
            }
        }
        for n in &placeholders {
            v.insert(n.clone(), PlaceholderValue::String(text(s, 3)));
        }
        let got = one.format(&v);
        let want = match (late && k < known_from, now.as_str()) {
            (true, _) => None,
            (_, "fail") => None,
            _ => {
                let as_clock = Pattern {
                    main: p.main.iter().map(clock_for_later).collect(),
                    named: p.named.iter().map(|(n, q)| (n.clone(), q.iter().map(clock_for_later).collect())).collect(),
                };
                // The command is shown by its name, too.
                Some((eval(tag, &as_clock, &v).0, false))
            }
        };
        let at = format!("step {k} with clock {now:?} and {}", show_values(&v));
        match (want, got) {
            (None, Err(_)) => {}
            (None, Ok(t)) => return Err(format!("{at}: expected an error, got text {t:?}")),
            (Some((e, b)), got) => {
                let got = got.map(|t| t.replace("S:later", "S:clock"));
                compare(&at, &(e, b), &got)?;
            }
        }
    }
    Ok(())
}

fn clock_for_later(p: &Part) -> Part {
    match p {
        Part::Cmd { name, delayed, params } if name == "later" => {
            Part::Cmd { name: "clock".to_string(), delayed: *delayed, params: params.clone() }
        }
        p => p.clone(),
    }
}

fn c15(s: &mut Source, r: &mut Rec) -> CaseResult {
    let mut g = PatGen { weights: [3, 1, 2, 1, 0, 2, 1, 9, 1], max_parts: 4, max_named: 3, ..Default::default() };
    if s.chance(1, 2) {
        let sum = compare_generated(s, r, g, 1)?;
        let delayed = has(&sum.pattern, |p| matches!(p, Part::Cmd { delayed: true, .. }));
        r.class_if(delayed, "delayed");
        r.class_if(has(&sum.pattern, |p| matches!(p, Part::Cmd { delayed: false, .. })), "immediate");
        r.nontrivial = has(&sum.pattern, |p| matches!(p, Part::Cmd { .. }));
        return Ok(());
    }
    if s.chance(1, 4) {
        return commands_in_time(s, r);
    }
    // Unregistered and failing commands, in formatted and in unselected parts.
    let reg = registry();
    let tag = locale(s);
    let name = s.pick(&["missing", "fail", "Dump", "dump", "file_path", "english_a_or_an"]).to_string();
    let delayed = s.bool();
    let mut params: Vec<Param> = vec![];
    for _ in 0..s.below(3) {
        params.push(if s.bool() { Param::Ident(ident(s)) } else { Param::Lit(text(s, 4)) });
    }
    if s.chance(1, 3) {
        params.insert(0, Param::Ident("v".to_string()));
    }
    let cmd = Part::Cmd { name: name.clone(), delayed, params };
    let in_named = s.bool();
    let p = if in_named {
        let arms = vec![("q".to_string(), "A".to_string()), ("other".to_string(), "B".to_string())];
        Pattern {
            main: vec![Part::Sel { kind: Kind::Select, name: "sel".to_string(), arms }],
            named: vec![("A".to_string(), vec![cmd]), ("B".to_string(), vec![Part::Text("b".to_string())])],
        }
    } else {
        Pattern { main: vec![Part::Text("x".to_string()), cmd], named: vec![] }
    };
    let string = render(s, &p);
    let mut values = g.values(s, &reg, 0);
    values.insert("v".to_string(), any_value(s, &reg));
    values.insert("sel".to_string(), PlaceholderValue::String(s.pick(&["q", "z"]).to_string()));
    r.case(format!("{tag}: {string:?} with {}", show_values(&values)));
    let e = expect(tag, &string, &values);
    // An unregistered delayed command in a part that is not formatted is not an error.
    let e = (e.0, false);
    r.class(match (&e.0, in_named) {
        (Out::Err(_), _) => "failing command",
        (_, true) => "command in named string",
        _ => "command in main string",
    });
    r.nontrivial = true;
    let one = One::new(s, &string, tag);
    for _ in 0..2 {
        compare("command", &e, &one.format(&values))?;
    }
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C05",
        rule: "texts of any characters, plain, for literal requests, or written as 1-4 segments each escaped or as literal pattern, in the main or a named string; non-trivial: the text has grammar characters (plain: not empty)",
        tape: 140,
        quick: 60_000,
        thorough: 3_000_000,
        level: "exploration",
        assumptions: &["white space directly after the name of a named string is the separator; text that starts with white space is written as a literal pattern there"],
        run: c05,
        fixed: None,
    },
    Prop {
        id: "C06",
        rule: "valid patterns in two spellings of white space, patterns with token or structural mutations, token soup; all strings of up to 6 tokens of a 7 token vocabulary and of 4-5 tokens inside a pattern of a 10 token vocabulary; non-trivial: the reference parser classifies the string as valid pattern or invalid",
        tape: 500,
        quick: 25_000,
        thorough: 600_000,
        level: "exploration",
        assumptions: &[
            "left open (either outcome allowed): forward references between named strings, select without other, unregistered delayed commands, the hour option, a grave accent before a token that is not grammar, white space or no separator around command elements, repeated selectors, a number sign with no named strings after it",
        ],
        run: c06,
        fixed: Some((small_count, c06_small)),
    },
    Prop {
        id: "C07",
        rule: "soup, arbitrary text and mutated patterns with values of any kind; ISO-like text; extreme numbers and dates; built-in commands with arbitrary parameters; arbitrary tags; unknown requests; strings of up to 4000 patterns, branches or nesting levels; every call must return (no panic, abort, 30 s CPU or 3 GB), twice with the same result; non-trivial: the input has grammar characters or at least 4 characters",
        tape: 320,
        quick: 50_000,
        thorough: 1_000_000,
        level: "exploration",
        assumptions: &["years from -99999 to 99999 for typed dates", "branch nesting up to 4000 levels"],
        run: c07,
        fixed: None,
    },
    Prop {
        id: "C08",
        rule: "patterns with mainly string placeholders and values of all texts and kinds, one in eight missing or of another kind; non-trivial: at least one string placeholder",
        tape: 700,
        quick: 45_000,
        thorough: 1_200_000,
        level: "exploration",
        assumptions: &[],
        run: c08,
        fixed: None,
    },
    Prop {
        id: "C09",
        rule: "one decimal pattern with 0-3 options, a number of any kind and size, in one of over 100 languages; equal numbers of the other kinds; other values; non-trivial: at least 4 digits, options, or not a number",
        tape: 60,
        quick: 50_000,
        thorough: 1_200_000,
        level: "exploration",
        assumptions: &["ICU4X (same version, called directly) is the reference for the locale data; digits are also checked against the decimal expansion itself"],
        run: c09,
        fixed: None,
    },
    Prop {
        id: "C10",
        rule: "one date_time pattern with 0-3 options, dates and times of years -99999 to 99999, other values, over 100 languages, all documented calendars; non-trivial: the outcome is specified",
        tape: 60,
        quick: 60_000,
        thorough: 2_000_000,
        level: "exploration",
        assumptions: &["ICU4X (same version, called directly) is the reference for the locale data"],
        run: c10,
        fixed: None,
    },
    Prop {
        id: "C11",
        rule: "documented ISO forms of random dates and times compared with the typed value, texts with one spoilt component, ISO-like soup; all months 0-13 and days 0-32 of ten years in four forms against hand-made texts; non-trivial: the outcome is specified",
        tape: 80,
        quick: 60_000,
        thorough: 2_000_000,
        level: "exploration",
        assumptions: &["left open: hour 24, minute or second 60, several T, more than three date parts, months and days of one digit, empty components"],
        run: c11,
        fixed: Some((c11_fixed_count, c11_fixed)),
    },
    Prop {
        id: "C12",
        rule: "patterns of mainly plural and ordinal branches, plus one pattern that shows the category, numbers of all kinds, over 100 languages; hand-written rules of 12 rule sets for 0..=400; non-trivial: a branch is taken, or the single pattern is judged",
        tape: 700,
        quick: 45_000,
        thorough: 1_000_000,
        level: "exploration",
        assumptions: &["ICU4X (same version, called directly) is the reference for plural rules except for the hand-written ones"],
        run: c12,
        fixed: Some((c12_fixed_count, c12_fixed)),
    },
    Prop {
        id: "C13",
        rule: "patterns of mainly select branches nested up to 6 deep, plus a select with near misses of its selectors; non-trivial: a branch is taken and there is a select pattern, or the single pattern is judged",
        tape: 700,
        quick: 45_000,
        thorough: 1_200_000,
        level: "exploration",
        assumptions: &["a select pattern without other may also be rejected"],
        run: c13,
        fixed: None,
    },
    Prop {
        id: "C14",
        rule: "patterns of plural and ordinal branches full of number signs, shared and nested, formatted 1-3 times with different numbers by one localiser; non-trivial: a branch is taken and there is a number sign",
        tape: 700,
        quick: 30_000,
        thorough: 700_000,
        level: "exploration",
        assumptions: &["number signs in strings that a select pattern branched to are not specified"],
        run: c14,
        fixed: None,
    },
    Prop {
        id: "C15",
        rule: "patterns of mainly commands (immediate, delayed; identifiers, literal texts, names of values as parameters); unregistered and failing commands in formatted and unselected parts; the commands show every parameter with its kind; non-trivial: there is a command",
        tape: 400,
        quick: 45_000,
        thorough: 1_200_000,
        level: "exploration",
        assumptions: &[],
        run: c15,
        fixed: None,
    },
];
