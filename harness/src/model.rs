//! The pattern language: abstract syntax, rendering, a reference parser written from the documented
//! grammar (independent of the lexer and tree of the crate), and an evaluator on top of ICU.
use crate::engine::Source;
use crate::gen::*;
use crate::mem;
use fixed_decimal::{FixedDecimal, SignDisplay};
use i18n_utility::{LanguageTagRegistry, PlaceholderValue};
use icu_calendar::{types::Time, Date, DateTime, Iso};
use icu_datetime::options::length::{Bag, Date as DateLength, Time as TimeLength};
use icu_datetime::{DateFormatter, DateTimeFormatter, TimeFormatter};
use icu_decimal::options::{FixedDecimalFormatterOptions, GroupingStrategy};
use icu_decimal::FixedDecimalFormatter;
use icu_locid::Locale;
use icu_plurals::{PluralCategory, PluralRules};
use icu_provider::prelude::DataLocale;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Plural,
    Ordinal,
    Select,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Param {
    Ident(String),
    Lit(String),
}
impl Param {
    pub fn text(&self) -> &str {
        match self {
            Param::Ident(t) | Param::Lit(t) => t,
        }
    }
}

pub type Pairs = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Part {
    Text(String),
    Lit(String),
    Str(String),
    Dec { name: String, opts: Pairs },
    DT { name: String, opts: Pairs },
    Sel { kind: Kind, name: String, arms: Pairs },
    Cmd { name: String, delayed: bool, params: Vec<Param> },
    Num,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Pattern {
    pub main: Vec<Part>,
    pub named: Vec<(String, Vec<Part>)>,
}

pub type Values = BTreeMap<String, PlaceholderValue>;

pub fn to_hash(v: &Values) -> HashMap<String, PlaceholderValue> {
    v.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn show_values(v: &Values) -> String {
    v.iter().map(|(k, v)| format!("{k:?}={:?}", mem::show(v))).collect::<Vec<_>>().join(", ")
}

pub const KEYWORDS: &[&str] = &["decimal", "date_time", "plural", "ordinal", "select"];
pub const CATEGORIES: &[&str] = &["zero", "one", "two", "few", "many", "other"];
pub const SIGNS: &[&str] = &["auto", "never", "always", "except_zero", "negative"];
pub const GROUPS: &[&str] = &["auto", "never", "always", "min2"];
pub const LENGTHS: &[&str] = &["full", "long", "medium", "short"];
pub const CALENDARS: &[&str] = &["gregory", "buddhist", "japanese", "ethiopic", "indian", "coptic", "iso"];

// ---------------------------------------------------------------- rendering

pub fn escape(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        if GRAMMAR.contains(&c) {
            o.push('`');
        }
        o.push(c);
    }
    o
}

pub fn literal(t: &str) -> String {
    format!("`{}`", t.replace('`', "``"))
}

pub fn literal_pattern(t: &str) -> String {
    format!("{{{}}}", literal(t))
}

pub fn render_part(s: &mut Source, p: &Part) -> String {
    match p {
        Part::Text(t) => escape(t),
        Part::Lit(t) => literal_pattern(t),
        Part::Num => "#".to_string(),
        Part::Str(n) => format!("{{{n}{}}}", ws0(s)),
        Part::Dec { name, opts } => pairs(s, name, "decimal", opts),
        Part::DT { name, opts } => pairs(s, name, "date_time", opts),
        Part::Sel { kind, name, arms } => pairs(
            s,
            name,
            match kind {
                Kind::Plural => "plural",
                Kind::Ordinal => "ordinal",
                Kind::Select => "select",
            },
            arms,
        ),
        Part::Cmd { name, delayed, params } => {
            let mut o = format!("{{#{name}");
            if *delayed {
                if s.chance(1, 8) {
                    o.push_str(&ws(s));
                }
                o.push('#');
            }
            for p in params {
                o.push_str(&ws(s));
                match p {
                    Param::Ident(t) => o.push_str(t),
                    Param::Lit(t) => o.push_str(&literal(t)),
                }
            }
            o.push_str(&ws0(s));
            o.push('}');
            o
        }
    }
}

fn pairs(s: &mut Source, name: &str, keyword: &str, pairs: &Pairs) -> String {
    let mut o = format!("{{{name}{}{keyword}", ws(s));
    for (k, v) in pairs {
        o.push_str(&ws(s));
        o.push_str(k);
        o.push('#');
        o.push_str(v);
    }
    o.push_str(&ws0(s));
    o.push('}');
    o
}

pub fn render(s: &mut Source, p: &Pattern) -> String {
    let mut o = String::new();
    for part in &p.main {
        o.push_str(&render_part(s, part));
    }
    if !p.named.is_empty() {
        o.push('#');
        o.push_str(&ws0(s));
        for (name, parts) in &p.named {
            o.push('{');
            o.push_str(name);
            o.push_str(&ws(s));
            for (i, part) in parts.iter().enumerate() {
                match part {
                    // White space after the name belongs to the separator.
                    Part::Text(t) if i == 0 && t.starts_with(is_pws) => o.push_str(&literal_pattern(t)),
                    _ => o.push_str(&render_part(s, part)),
                }
            }
            o.push('}');
            o.push_str(&ws0(s));
        }
    }
    o
}

// ---------------------------------------------------------------- reference parser

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    W,
    G,
    S,
    I,
}

fn kind_of(c: char) -> K {
    if is_pws(c) {
        K::W
    } else if GRAMMAR.contains(&c) {
        K::G
    } else if is_ps(c) {
        K::S
    } else {
        K::I
    }
}

#[derive(Debug)]
pub enum Parsed {
    /// Empty or without any grammar character: returned as it is.
    Plain,
    /// Must be accepted; `soft`: may also be rejected.
    Accept { pattern: Pattern, soft: bool },
    Reject(String),
    /// Not specified at all.
    Wild,
}

struct Parser {
    toks: Vec<(K, String)>,
    i: usize,
    soft: bool,
    wild: bool,
    placeholders: HashSet<String>,
}

type PR<T> = Result<T, String>;

impl Parser {
    fn next(&mut self) -> Option<(K, String)> {
        let t = self.toks.get(self.i).cloned();
        self.i += 1;
        t
    }
    fn need(&mut self) -> PR<(K, String)> {
        self.next().ok_or_else(|| "ends abruptly".to_string())
    }
    fn peek(&self) -> Option<(K, &str)> {
        self.toks.get(self.i).map(|t| (t.0, t.1.as_str()))
    }

    fn entire(&mut self) -> PR<Pattern> {
        let mut p = Pattern::default();
        while let Some((k, t)) = self.next() {
            match (k, t.as_str()) {
                (K::G, "`") => {
                    let (k2, t2) = self.need()?;
                    if k2 != K::G {
                        self.wild = true;
                    }
                    push_text(&mut p.main, &t2);
                }
                (K::G, "{") => {
                    let part = self.pattern()?;
                    p.main.push(part);
                }
                (K::G, "#") => {
                    self.named_group(&mut p)?;
                    break;
                }
                (K::G, _) => return Err("} in main string".to_string()),
                _ => push_text(&mut p.main, &t),
            }
        }
        Ok(p)
    }

    fn named_group(&mut self, p: &mut Pattern) -> PR<()> {
        while let Some((k, t)) = self.next() {
            match (k, t.as_str()) {
                (K::W, _) => {}
                (K::G, "{") => {
                    let (k, name) = self.need()?;
                    if k != K::I {
                        return Err("no name of named string".to_string());
                    }
                    if name == "_" || p.named.iter().any(|n| n.0 == name) {
                        return Err("named string not unique".to_string());
                    }
                    let (k, _) = self.need()?;
                    if k != K::W {
                        return Err("no white space after name".to_string());
                    }
                    let parts = self.string()?;
                    p.named.push((name, parts));
                }
                _ => return Err("not a named string".to_string()),
            }
        }
        if p.named.is_empty() {
            self.soft = true;
        }
        Ok(())
    }

    fn string(&mut self) -> PR<Vec<Part>> {
        let mut parts = vec![];
        loop {
            let (k, t) = self.need()?;
            match (k, t.as_str()) {
                (K::G, "`") => {
                    let (k2, t2) = self.need()?;
                    if k2 != K::G {
                        self.wild = true;
                    }
                    push_text(&mut parts, &t2);
                }
                (K::G, "{") => {
                    let part = self.pattern()?;
                    parts.push(part);
                }
                (K::G, "#") => {
                    if parts.last() == Some(&Part::Num) {
                        return Err("consecutive number signs".to_string());
                    }
                    parts.push(Part::Num);
                }
                (K::G, _) => return Ok(parts),
                _ => push_text(&mut parts, &t),
            }
        }
    }

    fn literal_text(&mut self) -> PR<String> {
        let mut o = String::new();
        loop {
            let (k, t) = self.need()?;
            if k == K::G && t == "`" {
                if self.peek() == Some((K::G, "`")) {
                    self.next();
                    o.push('`');
                } else {
                    return Ok(o);
                }
            } else {
                o.push_str(&t);
            }
        }
    }

    fn pattern(&mut self) -> PR<Part> {
        let (k, t) = self.need()?;
        match (k, t.as_str()) {
            (K::I, _) => self.placeholder(t),
            (K::G, "`") => {
                let l = self.literal_text()?;
                match self.need()? {
                    (K::G, c) if c == "}" => Ok(Part::Lit(l)),
                    _ => Err("literal pattern not closed".to_string()),
                }
            }
            (K::G, "#") => self.command(),
            _ => Err("bad start of pattern".to_string()),
        }
    }

    fn placeholder(&mut self, name: String) -> PR<Part> {
        if !self.placeholders.insert(name.clone()) {
            return Err("placeholder not unique".to_string());
        }
        let keyword = loop {
            let (k, t) = self.need()?;
            match (k, t.as_str()) {
                (K::W, _) => {}
                (K::I, _) => break t,
                (K::G, "}") => return Ok(Part::Str(name)),
                _ => return Err("bad token in pattern".to_string()),
            }
        };
        let mut pairs: Pairs = vec![];
        loop {
            let (k, t) = self.need()?;
            match (k, t.as_str()) {
                (K::W, _) => {}
                (K::G, "}") => break,
                (K::I, _) => {
                    if self.need()? != (K::G, "#".to_string()) {
                        return Err("no # after option".to_string());
                    }
                    let (k, v) = self.need()?;
                    if k != K::I {
                        return Err("no value of option".to_string());
                    }
                    pairs.push((t, v));
                }
                _ => return Err("bad token after keyword".to_string()),
            }
        }
        let valid = |opts: &[(&str, &[&str])], soft: &mut bool| -> PR<()> {
            for (i, (k, v)) in pairs.iter().enumerate() {
                if k == "hour" && keyword == "date_time" {
                    *soft = true;
                    continue;
                }
                let Some((_, vals)) = opts.iter().find(|o| o.0 == k) else {
                    return Err(format!("unknown option {k}"));
                };
                if !vals.contains(&v.as_str()) {
                    if pairs[i + 1..].iter().any(|(k2, _)| k2 == k) {
                        *soft = true;
                    } else {
                        return Err(format!("bad value of option {k}"));
                    }
                }
            }
            Ok(())
        };
        match keyword.as_str() {
            "decimal" => {
                let mut soft = false;
                valid(&[("sign", SIGNS), ("group", GROUPS)], &mut soft)?;
                self.soft |= soft;
                Ok(Part::Dec { name, opts: pairs })
            }
            "date_time" => {
                let mut soft = false;
                valid(&[("date", LENGTHS), ("time", LENGTHS), ("calendar", CALENDARS)], &mut soft)?;
                self.soft |= soft;
                if pairs.iter().any(|p| p.0 == "hour") {
                    self.wild = true;
                }
                Ok(Part::DT { name, opts: pairs })
            }
            "plural" | "ordinal" => {
                for (k, _) in &pairs {
                    if !CATEGORIES.contains(&k.as_str()) {
                        return Err(format!("unknown category {k}"));
                    }
                }
                if !pairs.iter().any(|p| p.0 == "other") {
                    return Err("no branch for other".to_string());
                }
                self.dup(&pairs);
                let kind = if keyword == "plural" { Kind::Plural } else { Kind::Ordinal };
                Ok(Part::Sel { kind, name, arms: pairs })
            }
            "select" => {
                self.dup(&pairs);
                if !pairs.iter().any(|p| p.0 == "other") {
                    self.soft = true;
                }
                Ok(Part::Sel { kind: Kind::Select, name, arms: pairs })
            }
            _ => Err(format!("unknown keyword {keyword}")),
        }
    }

    fn dup(&mut self, pairs: &Pairs) {
        let set: HashSet<&String> = pairs.iter().map(|p| &p.0).collect();
        if set.len() != pairs.len() {
            self.wild = true;
        }
    }

    fn command(&mut self) -> PR<Part> {
        let (k, mut t) = self.need()?;
        if k == K::W {
            self.wild = true;
            let (k2, t2) = self.need()?;
            if k2 != K::I {
                return Err("no command name".to_string());
            }
            t = t2;
        } else if k != K::I {
            return Err("no command name".to_string());
        }
        let name = t;
        let mut delayed = false;
        let mut params = vec![];
        let mut sep = false;
        loop {
            let (k, t) = self.need()?;
            match (k, t.as_str()) {
                (K::W, _) => sep = true,
                (K::G, "}") => break,
                (K::G, "#") => {
                    if delayed || !params.is_empty() {
                        return Err("misplaced # in command".to_string());
                    }
                    delayed = true;
                    sep = false;
                }
                (K::G, "`") => {
                    if !sep {
                        self.wild = true;
                    }
                    let l = self.literal_text()?;
                    params.push(Param::Lit(l));
                    sep = false;
                }
                (K::I, _) => {
                    if !sep {
                        self.wild = true;
                    }
                    params.push(Param::Ident(t));
                    sep = false;
                }
                _ => return Err("bad token in command".to_string()),
            }
        }
        Ok(Part::Cmd { name, delayed, params })
    }
}

fn push_text(parts: &mut Vec<Part>, t: &str) {
    if let Some(Part::Text(p)) = parts.last_mut() {
        p.push_str(t);
    } else {
        parts.push(Part::Text(t.to_string()));
    }
}

pub fn run_command(name: &str, params: Vec<PlaceholderValue>) -> Option<String> {
    let f = mem::COMMANDS.iter().find(|c| c.0 == name)?.1;
    f(params).ok()
}

pub fn parse(string: &str) -> Parsed {
    let mut toks: Vec<(K, String)> = vec![];
    for c in string.chars() {
        let k = kind_of(c);
        match toks.last_mut() {
            Some((k2, t)) if *k2 == k && k != K::G => t.push(c),
            _ => toks.push((k, c.to_string())),
        }
    }
    if !toks.iter().any(|t| t.0 == K::G) {
        return Parsed::Plain;
    }
    let mut p = Parser { toks, i: 0, soft: false, wild: false, placeholders: HashSet::new() };
    let pattern = match p.entire() {
        Ok(p) => p,
        Err(m) => return Parsed::Reject(m),
    };
    match validate(&pattern) {
        Err(m) => return Parsed::Reject(m),
        Ok(soft) => p.soft |= soft,
    }
    if p.wild {
        return Parsed::Wild;
    }
    Parsed::Accept { pattern, soft: p.soft }
}

/// Conditions across the parts of a pattern; Ok(true): may also be rejected.
fn validate(p: &Pattern) -> PR<bool> {
    let mut soft = false;
    let index: HashMap<&str, usize> = p.named.iter().enumerate().map(|(i, n)| (n.0.as_str(), i)).collect();
    let mut edges: Vec<Vec<usize>> = vec![vec![]; p.named.len()];
    let lists = p.named.iter().map(|n| &n.1).chain([&p.main]);
    for (i, parts) in lists.enumerate() {
        for part in parts {
            match part {
                Part::Sel { arms, .. } => {
                    for (_, b) in arms {
                        let Some(&j) = index.get(b.as_str()) else {
                            return Err(format!("branch {b} does not exist"));
                        };
                        if i < p.named.len() {
                            edges[i].push(j);
                            if j >= i {
                                soft = true;
                            }
                        }
                    }
                }
                Part::Cmd { name, delayed, params } => {
                    if *delayed {
                        if !mem::COMMANDS.iter().any(|c| c.0 == name) {
                            soft = true;
                        }
                    } else {
                        let mut v = vec![PlaceholderValue::String(name.clone())];
                        v.extend(params.iter().map(|p| PlaceholderValue::String(p.text().to_string())));
                        if run_command(name, v).is_none() {
                            return Err(format!("command {name} fails"));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    // cycles
    fn visit(n: usize, edges: &[Vec<usize>], state: &mut [u8]) -> bool {
        if state[n] == 1 {
            return true;
        }
        if state[n] == 2 {
            return false;
        }
        state[n] = 1;
        for &m in &edges[n] {
            if visit(m, edges, state) {
                return true;
            }
        }
        state[n] = 2;
        false
    }
    let mut state = vec![0u8; edges.len()];
    for n in 0..edges.len() {
        if visit(n, &edges, &mut state) {
            return Err("cycle of branches".to_string());
        }
    }
    Ok(soft)
}

// ---------------------------------------------------------------- evaluation

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Out {
    Text(String),
    Err(String),
    Unspec,
}

pub fn data_locale(tag: &str) -> DataLocale {
    DataLocale::from(&Locale::from_str(tag).unwrap())
}

pub fn number_of(v: &PlaceholderValue) -> Option<FixedDecimal> {
    match v {
        PlaceholderValue::FixedDecimal(d) => Some(d.clone()),
        PlaceholderValue::Unsigned(n) => FixedDecimal::from_str(&n.to_string()).ok(),
        PlaceholderValue::Integer(n) => FixedDecimal::from_str(&n.to_string()).ok(),
        // The shortest text that reads back as the same float; not for NaN and infinities.
        PlaceholderValue::Float(f) if f.is_finite() => FixedDecimal::from_str(&format!("{f}")).ok(),
        _ => None,
    }
}

pub fn decimal_text(tag: &str, d: &FixedDecimal, sign: &str, group: &str) -> Option<String> {
    let mut o: FixedDecimalFormatterOptions = Default::default();
    o.grouping_strategy = match group {
        "auto" => GroupingStrategy::Auto,
        "never" => GroupingStrategy::Never,
        "always" => GroupingStrategy::Always,
        "min2" => GroupingStrategy::Min2,
        _ => return None,
    };
    let f = FixedDecimalFormatter::try_new(&data_locale(tag), o).ok()?;
    let mut d = d.clone();
    match sign {
        // No sign option leaves the sign of the number alone.
        "" => {}
        "auto" => d.apply_sign_display(SignDisplay::Auto),
        "never" => d.apply_sign_display(SignDisplay::Never),
        "always" => d.apply_sign_display(SignDisplay::Always),
        "except_zero" => d.apply_sign_display(SignDisplay::ExceptZero),
        "negative" => d.apply_sign_display(SignDisplay::Negative),
        _ => return None,
    }
    Some(f.format_to_string(&d))
}

pub fn category(tag: &str, ordinal: bool, d: &FixedDecimal) -> Option<&'static str> {
    let l = data_locale(tag);
    let r = if ordinal { PluralRules::try_new_ordinal(&l) } else { PluralRules::try_new_cardinal(&l) }.ok()?;
    Some(match r.category_for(d) {
        PluralCategory::Zero => "zero",
        PluralCategory::One => "one",
        PluralCategory::Two => "two",
        PluralCategory::Few => "few",
        PluralCategory::Many => "many",
        PluralCategory::Other => "other",
    })
}

#[derive(Clone, Debug)]
pub enum When {
    Date(Date<Iso>),
    Time(Time),
    Both(DateTime<Iso>),
}

fn last<'a>(opts: &'a Pairs, key: &str) -> Option<&'a str> {
    opts.iter().rev().find(|o| o.0 == key).map(|o| o.1.as_str())
}

pub fn date_time_text(tag: &str, w: &When, opts: &Pairs) -> Option<String> {
    let dl = match last(opts, "date").unwrap_or("medium") {
        "full" => DateLength::Full,
        "long" => DateLength::Long,
        "medium" => DateLength::Medium,
        "short" => DateLength::Short,
        _ => return None,
    };
    let tl = match last(opts, "time").unwrap_or("medium") {
        "full" => TimeLength::Full,
        "long" => TimeLength::Long,
        "medium" => TimeLength::Medium,
        "short" => TimeLength::Short,
        _ => return None,
    };
    let l = match last(opts, "calendar") {
        None => data_locale(tag),
        Some(c) => {
            let mut l = Locale::from_str(tag).ok()?;
            l.extensions.unicode.keywords.set(icu_locid::extensions::unicode::key!("ca"), c.parse().ok()?);
            DataLocale::from(&l)
        }
    };
    match w {
        When::Date(d) => {
            DateFormatter::try_new_with_length(&l, dl).ok()?.format_to_string(&d.to_any()).ok()
        }
        When::Time(t) => Some(TimeFormatter::try_new_with_length(&l, tl).ok()?.format_to_string(t)),
        When::Both(d) => DateTimeFormatter::try_new(&l, Bag::from_date_time_style(dl, tl).into())
            .ok()?
            .format_to_string(&d.to_any())
            .ok(),
    }
}

/// Documented ISO forms.  Ok(None): not specified; Err: must be an error.
pub fn iso(text: &str) -> Result<Option<When>, ()> {
    match text.split('T').collect::<Vec<_>>().as_slice() {
        [d] => Ok(iso_date(d)?.map(When::Date)),
        ["", t] => Ok(iso_time(t)?.map(When::Time)),
        [d, t] => {
            // An error of either part is an error of both.
            let (d, t) = (iso_date(d), iso_time(t));
            match (d?, t?) {
                (Some(d), Some(t)) => Ok(Some(When::Both(DateTime::new(d, t)))),
                _ => Ok(None),
            }
        }
        _ => Ok(None),
    }
}

fn digits(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit())
}

pub fn iso_date(text: &str) -> Result<Option<Date<Iso>>, ()> {
    if !text.is_ascii() {
        // A component contains something that is not a number.
        return if text.is_empty() { Ok(None) } else { Err(()) };
    }
    let (sign, body) = match text.as_bytes().first() {
        None => return Ok(None),
        Some(b'+') => (Some('+'), &text[1..]),
        Some(b'-') => (Some('-'), &text[1..]),
        _ => (None, text),
    };
    if body.is_empty() || body.starts_with(['+', '-']) {
        // Several signs are left open.
        return Ok(None);
    }
    let parts: Vec<&str> = body.split('-').collect();
    let num = |t: &str| t.parse::<i64>().map_err(|_| ());
    if parts.len() == 1 && sign.is_none() {
        // Basic forms: YYYY or YYYYMMDD.
        let t = parts[0];
        if !digits(t) {
            // Letters are errors; a leading sign inside a component is left open.
            let bad = |(i, b): (usize, u8)| !b.is_ascii_digit() && (b != b'+' || ![0, 4, 6].contains(&i));
            return if t.bytes().enumerate().any(bad) { Err(()) } else { Ok(None) };
        }
        return match t.len() {
            4 => Ok(Some(Date::try_new_iso_date(num(t)? as i32, 1, 1).map_err(|_| ())?)),
            8 if &t[4..6] == "00" || &t[6..] == "00" => Err(()),
            8 => Ok(Some(
                Date::try_new_iso_date(num(&t[..4])? as i32, num(&t[4..6])? as u8, num(&t[6..])? as u8)
                    .map_err(|_| ())?,
            )),
            _ => Err(()),
        };
    }
    if parts.len() > 3 {
        return Err(());
    }
    for p in &parts {
        if p.bytes().enumerate().any(|(i, b)| !b.is_ascii_digit() && (b != b'+' || i != 0)) {
            return Err(());
        }
        if !digits(p) {
            return if p.is_empty() { Err(()) } else { Ok(None) };
        }
    }
    // Month and day of other than two digits are not documented.
    let mut v = [0, 1, 1];
    for (i, p) in parts.iter().enumerate() {
        if p.len() > 12 {
            return Ok(None);
        }
        v[i] = num(p)?;
    }
    if !(1..=12).contains(&v[1]) || !(1..=31).contains(&v[2]) {
        return Err(());
    }
    let year_len = parts[0].len();
    let documented = match sign {
        None => year_len == 4,
        Some('-') => year_len == 4 || year_len == 5,
        _ => year_len == 5,
    } && v[0] <= 99_999
        && parts[1..].iter().all(|p| p.len() == 2);
    if v[0] > 99_999 {
        return Ok(None);
    }
    let y = if sign == Some('-') { -v[0] } else { v[0] };
    let d = Date::try_new_iso_date(y as i32, v[1] as u8, v[2] as u8).map_err(|_| ())?;
    Ok(documented.then_some(d))
}

/// Time without the leading T.
pub fn iso_time(text: &str) -> Result<Option<Time>, ()> {
    let body = match text.find(['+', '-']) {
        Some(p) => {
            // The offset must be hh, hhmm or hh:mm to be documented.
            let off = &text[p + 1..];
            let ok = match off.len() {
                4 => digits(off),
                5 => digits(&off[..0]) || (off.as_bytes()[2] == b':' && off.is_ascii() && digits(&off[..2]) && digits(&off[3..])),
                _ => false,
            };
            if !ok {
                return Ok(None);
            }
            &text[..p]
        }
        None => text.strip_suffix('Z').unwrap_or(text),
    };
    if body.ends_with('Z') {
        // Several Z, or Z before an offset.
        return Ok(None);
    }
    if body.is_empty() {
        return Ok(Some(mk_time(0, 0, 0, 0)));
    }
    let (clock, frac) = match body.find('.') {
        Some(p) => (&body[..p], Some(&body[p + 1..])),
        None => (body, None),
    };
    let comps: Vec<&str> = if clock.contains(':') {
        clock.split(':').collect()
    } else {
        if !clock.is_ascii() {
            return Err(());
        }
        if clock.bytes().any(|b| !b.is_ascii_digit()) {
            return Err(());
        }
        if clock.len() % 2 == 1 {
            // hhm, hhmms; more digits may be read as a fraction
            return if clock.len() < 6 { Err(()) } else { Ok(None) };
        }
        (0..clock.len()).step_by(2).map(|i| &clock[i..i + 2]).collect()
    };
    if comps.is_empty() || comps.len() > 3 {
        return Ok(None);
    }
    if comps.iter().any(|c| c.is_empty()) {
        return Ok(None);
    }
    if comps.iter().any(|c| !c.is_ascii() || c.bytes().any(|b| !b.is_ascii_digit())) {
        return Err(());
    }
    if comps.iter().any(|c| c.len() != 2) {
        return Ok(None);
    }
    let n: Vec<u8> = comps.iter().map(|c| c.parse().unwrap()).collect();
    let (h, m, sec) = (n[0], n.get(1).copied().unwrap_or(0), n.get(2).copied().unwrap_or(0));
    // 24 and 60 are accepted for the end of the day and leap seconds by the documentation.
    if h > 24 || m > 60 || sec > 61 {
        return Err(());
    }
    if h > 23 || m > 59 || sec > 59 {
        return Ok(None);
    }
    let nano = match frac {
        None => 0,
        // Only seconds have a fraction.
        Some(_) if comps.len() != 3 => return Err(()),
        Some(f) => {
            if f.is_empty() {
                return Ok(None);
            }
            if f.chars().any(|c| !c.is_ascii_digit() && c != '.') {
                return Err(());
            }
            // The fraction is documented as a number of nanoseconds.
            if !digits(f) || f.len() > 9 {
                return Ok(None);
            }
            f.parse().unwrap()
        }
    };
    Ok(Some(mk_time(h, m, sec, nano)))
}

pub struct Eval<'a> {
    pub tag: &'a str,
    pub values: &'a Values,
    pub pattern: &'a Pattern,
    pub err: Option<String>,
    pub unspec: bool,
    /// Branches taken, for class statistics.
    pub branches: usize,
    pub depth: usize,
}

pub fn eval(tag: &str, pattern: &Pattern, values: &Values) -> (Out, usize, usize) {
    let mut e = Eval { tag, values, pattern, err: None, unspec: false, branches: 0, depth: 0 };
    let t = e.parts(&pattern.main, None, 0);
    let o = if let Some(m) = e.err {
        Out::Err(m)
    } else if e.unspec {
        Out::Unspec
    } else {
        Out::Text(t)
    };
    (o, e.branches, e.depth)
}

impl Eval<'_> {
    fn fail(&mut self, m: String) -> String {
        if self.err.is_none() {
            self.err = Some(m);
        }
        String::new()
    }

    fn text_of(&self, name: &str) -> Option<String> {
        match self.values.get(name) {
            Some(PlaceholderValue::String(t)) => Some(t.clone()),
            Some(PlaceholderValue::TaggedString(t)) => Some(t.as_str().to_string()),
            Some(PlaceholderValue::Localised(t, _)) => Some(t.to_string()),
            _ => None,
        }
    }

    fn branch(&mut self, name: &str, number: Option<&FixedDecimal>, depth: usize) -> String {
        self.branches += 1;
        self.depth = self.depth.max(depth + 1);
        let pattern = self.pattern;
        match pattern.named.iter().find(|n| n.0 == name) {
            None => self.fail(format!("no named string {name}")),
            Some((_, parts)) => self.parts(parts, number, depth + 1),
        }
    }

    fn parts(&mut self, parts: &[Part], number: Option<&FixedDecimal>, depth: usize) -> String {
        let mut o = String::new();
        for p in parts {
            let t = self.part(p, number, depth);
            o.push_str(&t);
        }
        o
    }

    fn part(&mut self, p: &Part, number: Option<&FixedDecimal>, depth: usize) -> String {
        match p {
            Part::Text(t) | Part::Lit(t) => t.clone(),
            Part::Num => match number {
                Some(d) => match decimal_text(self.tag, d, "", "auto") {
                    Some(t) => t,
                    None => self.fail("icu".to_string()),
                },
                None => {
                    self.unspec = true;
                    String::new()
                }
            },
            Part::Str(n) => match self.text_of(n) {
                Some(t) => t,
                None => self.fail(format!("string {n}")),
            },
            Part::Dec { name, opts } => {
                let Some(d) = self.values.get(name).and_then(number_of) else {
                    return self.fail(format!("decimal {name}"));
                };
                match decimal_text(
                    self.tag,
                    &d,
                    last(opts, "sign").unwrap_or(""),
                    last(opts, "group").unwrap_or("auto"),
                ) {
                    Some(t) => t,
                    None => self.fail("icu".to_string()),
                }
            }
            Part::DT { name, opts } => {
                let w = match self.values.get(name) {
                    Some(PlaceholderValue::Date(d)) => When::Date(*d),
                    Some(PlaceholderValue::Time(t)) => When::Time(*t),
                    Some(PlaceholderValue::DateTime(d)) => When::Both(d.clone()),
                    Some(PlaceholderValue::String(t)) => match iso(t) {
                        Err(()) => return self.fail(format!("iso {t}")),
                        Ok(None) => {
                            self.unspec = true;
                            return String::new();
                        }
                        Ok(Some(w)) => w,
                    },
                    // Tagged and localised texts are not specified as dates.
                    Some(PlaceholderValue::TaggedString(_) | PlaceholderValue::Localised(..)) => {
                        self.unspec = true;
                        return String::new();
                    }
                    _ => return self.fail(format!("date_time {name}")),
                };
                match date_time_text(self.tag, &w, opts) {
                    Some(t) => t,
                    None => self.fail("icu".to_string()),
                }
            }
            Part::Sel { kind: Kind::Select, name, arms } => {
                let Some(t) = self.text_of(name) else {
                    return self.fail(format!("select {name}"));
                };
                match arms.iter().find(|a| a.0 == t).or_else(|| arms.iter().find(|a| a.0 == "other")) {
                    Some((_, b)) => self.branch(b, None, depth),
                    None => self.fail(format!("no branch for {t}")),
                }
            }
            Part::Sel { kind, name, arms } => {
                let d = match (kind, self.values.get(name)) {
                    (Kind::Ordinal, Some(v @ PlaceholderValue::Unsigned(_))) => number_of(v),
                    (Kind::Plural, Some(v)) => number_of(v),
                    _ => None,
                };
                let Some(d) = d else { return self.fail(format!("number {name}")) };
                let Some(c) = category(self.tag, *kind == Kind::Ordinal, &d) else {
                    return self.fail("icu".to_string());
                };
                match arms.iter().find(|a| a.0 == c).or_else(|| arms.iter().find(|a| a.0 == "other")) {
                    Some((_, b)) => self.branch(b, Some(&d), depth),
                    None => self.fail(format!("no branch for {c}")),
                }
            }
            Part::Cmd { name, delayed, params } => {
                let mut v = vec![PlaceholderValue::String(name.clone())];
                for p in params {
                    let plain = PlaceholderValue::String(p.text().to_string());
                    v.push(if *delayed { self.values.get(p.text()).cloned().unwrap_or(plain) } else { plain });
                }
                match run_command(name, v) {
                    Some(t) => t,
                    None => self.fail(format!("command {name}")),
                }
            }
        }
    }
}

/// Expected outcome of formatting a string.
pub fn expect(tag: &str, string: &str, values: &Values) -> (Out, bool) {
    match parse(string) {
        Parsed::Plain => (Out::Text(string.to_string()), false),
        Parsed::Reject(m) => (Out::Err(m), false),
        Parsed::Wild => (Out::Unspec, true),
        Parsed::Accept { pattern, soft } => (eval(tag, &pattern, values).0, soft),
    }
}

/// Compares an actual outcome with the expected one.
pub fn compare(what: &str, expected: &(Out, bool), actual: &Result<String, String>) -> Result<(), String> {
    match (expected, actual) {
        ((Out::Unspec, _), _) => Ok(()),
        ((Out::Text(e), _), Ok(a)) if e == a => Ok(()),
        ((Out::Text(e), _), Ok(a)) => Err(format!("{what}: expected text {e:?}, got {a:?}")),
        ((Out::Text(_), true), Err(_)) => Ok(()),
        ((Out::Text(e), false), Err(a)) => Err(format!("{what}: expected text {e:?}, got error {a}")),
        ((Out::Err(_), _), Err(_)) => Ok(()),
        ((Out::Err(e), _), Ok(a)) => Err(format!("{what}: expected an error ({e}), got text {a:?}")),
    }
}

// ---------------------------------------------------------------- generation

pub struct PatGen {
    pub used: HashSet<String>,
    pub placeholders: Vec<Part>,
    /// Weights of: text, literal, string, decimal, date_time, plural/ordinal, select, command, number sign.
    pub weights: [usize; 9],
    pub max_parts: usize,
    pub max_named: usize,
    /// Commands that may be used.
    pub commands: &'static [&'static str],
}

impl Default for PatGen {
    fn default() -> Self {
        PatGen {
            used: HashSet::new(),
            placeholders: vec![],
            weights: [6, 2, 3, 2, 2, 3, 3, 2, 3],
            max_parts: 5,
            max_named: 5,
            commands: &["dump", "grammar", "nothing", "swap", "file_path", "english_a_or_an", "größe"],
        }
    }
}

pub struct NamedInfo {
    pub name: String,
    pub numeric: bool,
}

impl PatGen {
    pub fn unique(&mut self, s: &mut Source) -> String {
        let base = ident(s);
        let mut n = base.clone();
        let mut i = 2;
        while !self.used.insert(n.clone()) {
            n = format!("{base}{i}");
            i += 1;
        }
        n
    }

    fn options(&mut self, s: &mut Source, all: &[(&str, &[&str])]) -> Pairs {
        let n = *s.pick(&[0, 1, 2, 2, 3]);
        (0..n)
            .map(|_| {
                let (k, vals) = s.pick(all);
                (k.to_string(), s.pick(vals).to_string())
            })
            .collect()
    }

    pub fn decimal_opts(&mut self, s: &mut Source) -> Pairs {
        self.options(s, &[("sign", SIGNS), ("group", GROUPS)])
    }

    pub fn date_opts(&mut self, s: &mut Source) -> Pairs {
        self.options(s, &[("date", LENGTHS), ("time", LENGTHS), ("date", LENGTHS), ("time", LENGTHS), ("calendar", CALENDARS)])
    }

    pub fn arms(&mut self, s: &mut Source, kind: Kind, avail: &[&NamedInfo]) -> Pairs {
        let mut keys: Vec<String> = vec![];
        if kind == Kind::Select {
            let most = if s.chance(1, 20) { 20 } else { 4 };
            for _ in 0..s.below(most) {
                let k = ident(s);
                if k != "other" && !keys.contains(&k) {
                    keys.push(k);
                }
            }
        } else {
            for c in &CATEGORIES[..5] {
                if s.chance(2, 5) {
                    keys.push(c.to_string());
                }
            }
        }
        keys.push("other".to_string());
        s.shuffle(&mut keys);
        keys.into_iter().map(|k| (k, s.pick(avail).name.clone())).collect()
    }

    /// One part; `avail` are the named strings it may branch to, `number` whether # may be used.
    pub fn part(&mut self, s: &mut Source, avail: &[NamedInfo], number: bool, prev: Option<&Part>) -> Part {
        let plain: Vec<&NamedInfo> = avail.iter().filter(|n| !n.numeric).collect();
        let all: Vec<&NamedInfo> = avail.iter().collect();
        let mut w = self.weights;
        if all.is_empty() {
            w[5] = 0;
        }
        if plain.is_empty() {
            w[6] = 0;
        }
        if !number || prev == Some(&Part::Num) {
            w[8] = 0;
        }
        if w.iter().sum::<usize>() == 0 {
            w[0] = 1;
        }
        let p = match s.weighted(&w) {
            0 => {
                let t = text(s, 6);
                Part::Text(if t.is_empty() { "x".to_string() } else { t })
            }
            1 => Part::Lit(text(s, 6)),
            2 => Part::Str(self.unique(s)),
            3 => Part::Dec { name: self.unique(s), opts: self.decimal_opts(s) },
            4 => Part::DT { name: self.unique(s), opts: self.date_opts(s) },
            5 => {
                let kind = if s.chance(1, 3) { Kind::Ordinal } else { Kind::Plural };
                Part::Sel { kind, name: self.unique(s), arms: self.arms(s, kind, &all) }
            }
            6 => Part::Sel { kind: Kind::Select, name: self.unique(s), arms: self.arms(s, Kind::Select, &plain) },
            7 => self.command(s),
            _ => Part::Num,
        };
        match &p {
            Part::Str(_) | Part::Dec { .. } | Part::DT { .. } | Part::Sel { .. } => self.placeholders.push(p.clone()),
            _ => {}
        }
        p
    }

    pub fn command(&mut self, s: &mut Source) -> Part {
        let name = s.pick(self.commands).to_string();
        let delayed = s.bool();
        let mut params = vec![];
        let min = usize::from(matches!(name.as_str(), "file_path" | "english_a_or_an"));
        let most = if s.chance(1, 16) { 14 } else { 4 };
        for _ in 0..min + s.below(most) {
            params.push(match s.weighted(&[3, 3, 2]) {
                0 => Param::Ident(ident(s)),
                1 => Param::Lit(text(s, 5)),
                _ => match self.placeholders.last() {
                    Some(p) => Param::Ident(placeholder_name(p).unwrap().to_string()),
                    None => Param::Ident("v".to_string()),
                },
            });
        }
        Part::Cmd { name, delayed, params }
    }

    pub fn parts(&mut self, s: &mut Source, avail: &[NamedInfo], number: bool, max: usize) -> Vec<Part> {
        let n = s.below(max + 1);
        let mut v: Vec<Part> = vec![];
        for _ in 0..n {
            let p = self.part(s, avail, number, v.last());
            v.push(p);
        }
        v
    }

    pub fn pattern(&mut self, s: &mut Source) -> Pattern {
        let n = s.below(self.max_named + 1);
        let mut infos: Vec<NamedInfo> = vec![];
        let mut named = vec![];
        for _ in 0..n {
            let numeric = s.chance(3, 5);
            let mut name = ident(s);
            while name == "_" || infos.iter().any(|i| i.name == name) {
                name.push_str("n");
            }
            let parts = self.parts(s, &infos, numeric, self.max_parts);
            named.push((name.clone(), parts));
            infos.push(NamedInfo { name, numeric });
        }
        let max = self.max_parts + 1;
        let mut main = self.parts(s, &infos, false, max);
        // Use the named strings more often than chance would.
        if !infos.is_empty() && s.chance(3, 4) {
            let all: Vec<&NamedInfo> = infos.iter().collect();
            let kind = *s.pick(&[Kind::Plural, Kind::Plural, Kind::Ordinal]);
            let p = Part::Sel { kind, name: self.unique(s), arms: self.arms(s, kind, &all) };
            self.placeholders.push(p.clone());
            let at = s.below(main.len() + 1);
            main.insert(at, p);
        }
        // Any order of definitions that keeps definitions before their uses.
        for i in 1..named.len() {
            if s.chance(1, 4) && !uses(&named[i].1, &named[i - 1].0) {
                named.swap(i, i - 1);
            }
        }
        Pattern { main, named }
    }

    /// A long chain of named strings, each with one branch to the one before it.
    pub fn chain(&mut self, s: &mut Source) -> Pattern {
        let mut named: Vec<(String, Vec<Part>)> = vec![];
        let mut infos: Vec<NamedInfo> = vec![];
        let most = *s.pick(&[20, 60, 300]);
        let n = 10 + s.below(most);
        let numbers = s.bool();
        for i in 0..n {
            let numeric = numbers && s.bool();
            let mut parts = vec![Part::Text(format!("<{i} "))];
            if numeric && s.bool() {
                parts.push(Part::Num);
                parts.push(Part::Text(" ".to_string()));
            }
            if let Some(last) = infos.last() {
                let kind = match last.numeric || s.bool() {
                    true => *s.pick(&[Kind::Plural, Kind::Plural, Kind::Ordinal]),
                    false => Kind::Select,
                };
                let p = Part::Sel { kind, name: format!("v{i}"), arms: self.arms(s, kind, &[last]) };
                self.used.insert(format!("v{i}"));
                self.placeholders.push(p.clone());
                parts.push(p);
            }
            parts.push(match numeric && s.bool() {
                true => Part::Num,
                false => Part::Text(">".to_string()),
            });
            let name = format!("n{i}");
            named.push((name.clone(), parts));
            infos.push(NamedInfo { name, numeric });
        }
        let p = Part::Sel { kind: Kind::Plural, name: "v".to_string(), arms: self.arms(s, Kind::Plural, &[infos.last().unwrap()]) };
        self.used.insert("v".to_string());
        self.placeholders.push(p.clone());
        Pattern { main: vec![Part::Text("x".to_string()), p, Part::Text("y".to_string())], named }
    }

    /// Values for the placeholders; `faults` in 16 of them unsuitable or missing.
    /// Strings with number signs that are branches of a `select` and of a `plural` or `ordinal`.
    pub fn mixed(&mut self, s: &mut Source) -> Pattern {
        let mut p = Pattern::default();
        for n in ["a", "b"] {
            let mut parts = vec![Part::Text(format!("{n}("))];
            let most = if s.long(12) { 30 } else { 4 };
            for _ in 0..1 + s.below(most) {
                parts.push(Part::Num);
                parts.push(Part::Text(")".to_string()));
            }
            p.named.push((n.to_string(), parts));
        }
        let arms = |k: [&str; 2]| -> Pairs { vec![(k[0].to_string(), "a".to_string()), (k[1].to_string(), "b".to_string())] };
        let select = Part::Sel { kind: Kind::Select, name: "which".to_string(), arms: arms(["x", "other"]) };
        let kind = if s.bool() { Kind::Plural } else { Kind::Ordinal };
        let count = Part::Sel { kind, name: "count".to_string(), arms: arms(["one", "other"]) };
        p.main = match s.below(3) {
            0 => vec![count, select],
            1 => vec![select, Part::Text(" ".to_string()), count],
            _ => {
                // One branch leads to the other.
                p.named.push(("c".to_string(), vec![count]));
                vec![Part::Sel { kind: Kind::Select, name: "which".to_string(), arms: vec![("x".to_string(), "c".to_string()), ("other".to_string(), "a".to_string())] }]
            }
        };
        for part in p.main.iter().chain(p.named.iter().flat_map(|n| n.1.iter())) {
            if placeholder_name(part).is_some() {
                self.placeholders.push(part.clone());
            }
        }
        p
    }

    pub fn values(&mut self, s: &mut Source, reg: &LanguageTagRegistry, faults: usize) -> Values {
        let mut v = Values::new();
        for p in &self.placeholders {
            let name = placeholder_name(p).unwrap().to_string();
            if s.chance(faults, 16) {
                if s.bool() {
                    v.insert(name, any_value(s, reg));
                }
                continue;
            }
            v.insert(name, value_for(s, reg, p));
        }
        let most = if s.chance(1, 30) { 30 } else { 3 };
        for _ in 0..s.below(most) {
            let n = ident(s);
            if !v.contains_key(&n) && !self.placeholders.iter().any(|p| placeholder_name(p) == Some(&n)) {
                v.insert(n, any_value(s, reg));
            }
        }
        v
    }
}

pub fn uses(parts: &[Part], name: &str) -> bool {
    parts.iter().any(|p| matches!(p, Part::Sel { arms, .. } if arms.iter().any(|a| a.1 == name)))
}

pub fn placeholder_name(p: &Part) -> Option<&str> {
    match p {
        Part::Str(name) | Part::Dec { name, .. } | Part::DT { name, .. } | Part::Sel { name, .. } => Some(name),
        _ => None,
    }
}

pub fn finite_number(s: &mut Source) -> PlaceholderValue {
    loop {
        let v = gen_number(s);
        match &v {
            PlaceholderValue::Float(f) if !f.is_finite() => {
                if s.exhausted() {
                    return PlaceholderValue::Unsigned(1);
                }
            }
            _ => return v,
        }
    }
}

pub fn value_for(s: &mut Source, reg: &LanguageTagRegistry, p: &Part) -> PlaceholderValue {
    match p {
        Part::Dec { .. } => finite_number(s),
        Part::DT { .. } => {
            if s.chance(1, 5) {
                PlaceholderValue::String(iso_text(s).0)
            } else {
                date_time_value(s)
            }
        }
        Part::Sel { kind: Kind::Plural, .. } => finite_number(s),
        Part::Sel { kind: Kind::Ordinal, .. } => PlaceholderValue::Unsigned(gen_u128(s)),
        Part::Sel { kind: Kind::Select, arms, .. } => {
            let t = if s.chance(3, 4) { s.pick(arms).0.clone() } else { ident(s) };
            text_kind(s, reg, t)
        }
        _ => string_value(s, reg),
    }
}

/// A documented ISO text with the typed value it denotes.
pub fn iso_text(s: &mut Source) -> (String, When) {
    match s.below(3) {
        0 => {
            let (t, d) = iso_date_text(s);
            (t, When::Date(d))
        }
        1 => {
            let (t, v) = iso_time_text(s);
            (format!("T{t}"), When::Time(v))
        }
        _ => {
            let (t, d) = iso_date_text(s);
            let (u, v) = iso_time_text(s);
            (format!("{t}T{u}"), When::Both(DateTime::new(d, v)))
        }
    }
}

pub fn iso_date_text(s: &mut Source) -> (String, Date<Iso>) {
    let (y, m, d) = gen_ymd(s);
    let year = if y < 0 {
        format!("-{:04}", -y)
    } else if y > 9999 || s.chance(1, 8) {
        format!("+{y:05}")
    } else {
        format!("{y:04}")
    };
    let (text, m, d) = match s.weighted(&[4, 3, 1, 1]) {
        0 => (format!("{year}-{m:02}-{d:02}"), m, d),
        1 if year.len() == 4 => (format!("{year}{m:02}{d:02}"), m, d),
        2 => (format!("{year}-{m:02}"), m, 1),
        _ => (year, 1, 1),
    };
    (text, Date::try_new_iso_date(y, m, d).unwrap())
}

/// Without the leading T.
pub fn iso_time_text(s: &mut Source) -> (String, Time) {
    let (h, m, sec, _) = gen_hmsn(s);
    let sep = if s.bool() { ":" } else { "" };
    let (mut text, t) = match s.weighted(&[4, 3, 2, 1, 1]) {
        0 => (format!("{h:02}{sep}{m:02}{sep}{sec:02}"), (h, m, sec, 0)),
        1 => {
            let n = if s.bool() { s.below(1000) as u32 } else { s.below(1_000_000_000) as u32 };
            (format!("{h:02}{sep}{m:02}{sep}{sec:02}.{n:03}"), (h, m, sec, n))
        }
        2 => (format!("{h:02}{sep}{m:02}"), (h, m, 0, 0)),
        3 => (format!("{h:02}"), (h, 0, 0, 0)),
        _ => (String::new(), (0, 0, 0, 0)),
    };
    if !text.is_empty() && s.chance(1, 3) {
        let z = match s.below(3) {
            0 => "Z".to_string(),
            1 => format!("{}{:02}:{:02}", s.pick(&["+", "-"]), s.below(13), s.pick(&[0, 30, 45])),
            _ => format!("{}{:02}{:02}", s.pick(&["+", "-"]), s.below(13), s.pick(&[0, 30, 45])),
        };
        text.push_str(&z);
    }
    (text, mk_time(t.0, t.1, t.2, t.3))
}
