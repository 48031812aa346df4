//! C29: one fault is put into a valid pattern; the error has to identify it.
use crate::engine::{no_panic, CaseResult, Prop, Rec, Source};
use crate::gen::*;
use crate::model::*;
use crate::props::pattern::{registry, split_tokens, One};
use i18n_localiser::{CommandError, FormatterError, LocaliserError, TreeError};
use i18n_utility::{LanguageTagRegistry, PlaceholderValue};
use icu_segmenter::GraphemeClusterSegmenter;
use crate::Rc;

const MARK: &str = "\u{E0F0}\u{E0F1}\u{E0F2}";

#[derive(Clone, Debug)]
enum Fault {
    /// Offset of the offending token in the inserted text.
    Token(usize),
    Double(usize),
    End,
    RepeatedPlaceholder(String),
    RepeatedNamed(String),
    NamedMain,
    Keyword(String, String),
    Option(String, &'static str, String),
    OptionValue(String, &'static str, &'static str),
    Selector(String, &'static str, String),
    Branch(String, String, String),
    Other(&'static str, String),
    UnknownCommand(String),
    FailingCommand(usize),
    MissingValue(String),
    WrongValue(&'static str),
    NoBranch(String),
}

fn odd_ident(s: &mut Source, not: &[&str]) -> String {
    let mut t = match s.below(3) {
        0 => ident(s),
        1 => format!("{}{}", s.pick(not), s.pick(&["s", "1", "x"])),
        _ => s.pick(not).to_uppercase(),
    };
    while not.contains(&t.as_str()) || t == "_" {
        t.push('q');
    }
    t
}

/// A place for the fault: in the main string (true) or in a named string.
fn place(s: &mut Source, p: &mut Pattern, main_only: bool) -> bool {
    let main = main_only || p.named.len() < 2 || s.bool();
    let list = if main {
        &mut p.main
    } else {
        // Not the target of the branches, which has to be defined before.
        let i = 1 + s.below(p.named.len() - 1);
        &mut p.named[i].1
    };
    let mut at = s.below(list.len() + 1);
    // Number signs must not become neighbours of the inserted text.
    while at > 0 && list[at - 1] == Part::Num || at < list.len() && list[at] == Part::Num {
        if at == 0 {
            list.insert(0, Part::Text("x".to_string()));
        } else {
            at -= 1;
        }
    }
    list.insert(at, Part::Text(MARK.to_string()));
    main
}

fn arms(s: &mut Source, other: Option<&str>, extra: &[(&str, &str)]) -> String {
    let mut v: Vec<String> = extra.iter().map(|(a, b)| format!("{a}#{b}")).collect();
    if let Some(o) = other {
        v.push(format!("other#{o}"));
    }
    s.shuffle(&mut v);
    let mut t = String::new();
    for x in v {
        t.push_str(&ws(s));
        t.push_str(&x);
    }
    t
}

pub fn c29(s: &mut Source, rec: &mut Rec) -> CaseResult {
    let reg = registry();
    let tag = locale(s);
    let mut g = PatGen { commands: &["dump", "grammar", "nothing", "swap", "größe"], max_parts: 3, max_named: 3, ..Default::default() };
    let mut p = g.pattern(s);
    let mut values = g.values(s, &reg, 0);
    // Not judged when the pattern is not fine without the fault.
    if !matches!(eval(tag, &p, &values).0, Out::Text(_)) {
        return Ok(());
    }
    // A named string to branch to.
    let mut target = "target".to_string();
    while p.named.iter().any(|n| n.0 == target) {
        target.push('t');
    }
    p.named.insert(0, (target.clone(), vec![Part::Text("branch".to_string())]));
    let name = g.unique(s);
    values.remove(&name);
    let t = target.as_str();
    let mut end = false;
    let (text, fault): (String, Fault) = match s.below(17) {
        0 => {
            let list: [(String, usize); 24] = [
                ("{}".into(), 1),
                ("{{a}".into(), 1),
                (format!("{{{name} !}}"), name.len() + 2),
                (format!("{{{name} decimal !}}"), name.len() + 10),
                (format!("{{{name} decimal {{"), name.len() + 10),
                (format!("{{{name} decimal sign}}"), name.len() + 14),
                (format!("{{{name} decimal sign#}}"), name.len() + 15),
                (format!("{{{name} decimal #auto}}"), name.len() + 10),
                (format!("{{{name} `x`}}"), name.len() + 2),
                (format!("{{{name} {{"), name.len() + 2),
                ("{#}".into(), 2),
                ("{#dump !}".into(), 7),
                ("{#dump {".into(), 7),
                ("{`x`y}".into(), 4),
                ("{`x` y}".into(), 4),
                ("{ a}".into(), 1),
                ("{\u{85}}".into(), 1),
                ("{!a}".into(), 1),
                ("{-}".into(), 1),
                ("{#dump a #}".into(), 9),
                ("{#dump# #}".into(), 8),
                ("{#dump ##}".into(), 8),
                ("{#dump `a`#}".into(), 10),
                ("{#dump# a -}".into(), 10),
            ];
            let (t, o) = s.pick(&list).clone();
            place(s, &mut p, false);
            (t, Fault::Token(o))
        }
        1 => {
            // A closing brace in the main string, or something between the named strings.
            if s.bool() {
                place(s, &mut p, true);
                ("}".into(), Fault::Token(0))
            } else {
                end = true;
                let (t, o) = s.pick(&[("x", 0), ("!", 0), ("}", 0), ("#", 0), ("`", 0), ("{!}", 1), ("{{x}}", 1), ("{}", 1)]);
                (t.to_string(), Fault::Token(*o))
            }
        }
        2 => {
            let i = s.below(p.named.len());
            let list = &mut p.named[i].1;
            list.push(Part::Text("x".to_string()));
            list.push(Part::Text(MARK.to_string()));
            ("##".into(), Fault::Double(1))
        }
        3 => {
            end = true;
            if s.chance(1, 3) {
                // In the main string.
                p.named.clear();
                p.main.retain(|x| matches!(x, Part::Text(_)));
                let list = ["`", "{", "{x", "{x ", "{x decimal", "{x decimal sign", "{x decimal sign#", "{x decimal sign#auto", "{#", "{#dump", "{#dump x `a", "{`a", "{`a`", "{`", "{x}{"];
                (s.pick(&list).to_string().replace("x", &name), Fault::End)
            } else {
            let list = ["{n", "{n text", "{n {", "{n {x", "{n {x decimal", "{n {x decimal sign", "{n {x decimal sign#", "{n {x decimal sign#auto", "{n {#dump", "{n {#dump x `a", "{n {`a", "{n `", "{"];
            (s.pick(&list).to_string().replace("x", &name).replace("{n", "{ended"), Fault::End)
            }
        }
        4 => {
            let main = place(s, &mut p, false);
            let _ = main;
            let n = match g.placeholders.is_empty() || s.chance(1, 4) {
                true => name.clone(),
                false => placeholder_name(s.pick(&g.placeholders)).unwrap().to_string(),
            };
            let kind = s.pick(&["", " decimal", " date_time"]).to_string();
            let twice = if n == name { format!("{{{n}}}") } else { String::new() };
            (format!("{twice}{{{n}{kind}}}"), Fault::RepeatedPlaceholder(n))
        }
        5 => {
            end = true;
            let n = s.pick(&p.named).0.clone();
            (format!("{{{n} again}}"), Fault::RepeatedNamed(n))
        }
        6 => {
            end = true;
            ("{_ again}".into(), Fault::NamedMain)
        }
        7 => {
            place(s, &mut p, false);
            let k = odd_ident(s, KEYWORDS);
            (format!("{{{name}{}{k}{}}}", ws(s), ws0(s)), Fault::Keyword(k, name.clone()))
        }
        8 => {
            place(s, &mut p, false);
            let (kw, not): (&'static str, &[&str]) = match s.bool() {
                false => ("decimal", &["sign", "group"]),
                true => ("date_time", &["date", "time", "calendar", "hour"]),
            };
            let o = odd_ident(s, not);
            let v = ident(s);
            (format!("{{{name} {kw}{}{o}#{v}{}}}", ws(s), ws0(s)), Fault::Option(o, kw, name.clone()))
        }
        9 => {
            place(s, &mut p, false);
            let (kw, o, not): (&'static str, &'static str, &[&str]) = *s.pick(&[
                ("decimal", "sign", SIGNS),
                ("decimal", "group", GROUPS),
                ("date_time", "date", LENGTHS),
                ("date_time", "time", LENGTHS),
                ("date_time", "calendar", &["gregory", "buddhist", "japanese"]),
            ]);
            let v = match o {
                "calendar" => s.pick(&["gregorian", "Buddhist", "none", "x", "ca"]).to_string(),
                _ => odd_ident(s, not),
            };
            (format!("{{{name} {kw}{}{o}#{v}{}}}", ws(s), ws0(s)), Fault::OptionValue(v, o, kw))
        }
        10 => {
            place(s, &mut p, false);
            let kw = *s.pick(&["plural", "ordinal"]);
            let sel = odd_ident(s, CATEGORIES);
            let a = arms(s, Some(t), &[(&sel, t)]);
            (format!("{{{name} {kw}{a}}}"), Fault::Selector(sel, kw, name.clone()))
        }
        11 => {
            place(s, &mut p, false);
            let kw = *s.pick(&["plural", "ordinal", "select"]);
            let sel = s.pick(CATEGORIES).to_string();
            let mut n = if s.chance(1, 5) { "_".to_string() } else { ident(s) };
            while p.named.iter().any(|x| x.0 == n) {
                n.push('q');
            }
            let a = match sel == "other" {
                true => arms(s, None, &[("other", &n), ("many", t)]),
                false => arms(s, Some(t), &[(&sel, &n)]),
            };
            (format!("{{{name} {kw}{a}}}"), Fault::Branch(n, sel, name.clone()))
        }
        12 => {
            place(s, &mut p, false);
            let kw = *s.pick(&["plural", "ordinal"]);
            let a = match s.below(3) {
                0 => String::new(),
                1 => arms(s, None, &[("one", t)]),
                _ => arms(s, None, &[("one", t), ("many", t), ("few", t)]),
            };
            (format!("{{{name} {kw}{a}}}"), Fault::Other(kw, name.clone()))
        }
        13 => {
            let delayed = s.bool();
            // The result of a delayed command is needed only where it is formatted.
            place(s, &mut p, delayed);
            let c = odd_ident(s, &["dump", "grammar", "nothing", "fail", "swap", "file_path", "english_a_or_an", "größe"]);
            (format!("{{#{c}{} a}}", if delayed { "#" } else { "" }), Fault::UnknownCommand(c))
        }
        14 => {
            let delayed = s.bool();
            place(s, &mut p, delayed);
            let n = s.below(4);
            (format!("{{#fail{}{}}}", if delayed { "#" } else { "" }, " a".repeat(n)), Fault::FailingCommand(n + 1))
        }
        15 => {
            place(s, &mut p, true);
            let list = [format!("{{{name}}}"), format!("{{{name} decimal}}"), format!("{{{name} date_time date#short}}"), format!("{{{name} plural other#{t}}}"), format!("{{{name} ordinal other#{t}}}"), format!("{{{name} select other#{t}}}")];
            let kinds = ["String", "Decimal", "DateTime", "Plural", "Ordinal", "Select"];
            let i = s.below(6);
            if s.bool() {
                (list[i].clone(), Fault::MissingValue(name.clone()))
            } else {
                let v = wrong_value(s, &reg, i);
                values.insert(name.clone(), v);
                (list[i].clone(), Fault::WrongValue(kinds[i]))
            }
        }
        _ => {
            place(s, &mut p, true);
            let v = odd_ident(s, &["a", "other"]);
            values.insert(name.clone(), text_kind(s, &reg, v.clone()));
            (format!("{{{name} select a#{t}}}"), Fault::NoBranch(v))
        }
    };
    let mut string = render(s, &p);
    if end {
        string.push_str(MARK);
    }
    let offset = string.find(MARK).unwrap();
    let string = string.replace(MARK, &text);
    rec.case(format!("{tag}: {string:?} {fault:?} {}", show_values(&values)));
    rec.nontrivial = string.len() > text.len() + 20;
    rec.class(match fault {
        Fault::Token(_) => "misplaced token",
        Fault::Double(_) => "doubled number sign",
        Fault::End => "abrupt end",
        Fault::RepeatedPlaceholder(_) => "repeated placeholder",
        Fault::RepeatedNamed(_) => "repeated named string",
        Fault::NamedMain => "named string _",
        Fault::Keyword(..) => "keyword",
        Fault::Option(..) => "option",
        Fault::OptionValue(..) => "option value",
        Fault::Selector(..) => "selector",
        Fault::Branch(..) => "branch",
        Fault::Other(..) => "no other",
        Fault::UnknownCommand(_) => "unknown command",
        Fault::FailingCommand(_) => "failing command",
        Fault::MissingValue(_) => "missing value",
        Fault::WrongValue(_) => "unsuitable value",
        Fault::NoBranch(_) => "no branch",
    });
    let one = One::new(s, &string, tag);
    for round in 0..2 {
        let e = match no_panic("format", || one.raw(&values))? {
            Ok((t, _)) => return Err(format!("formatted as {t:?} instead of an error for {fault:?} (round {round})")),
            Err(e) => e,
        };
        if !identified(&fault, &e, &string, offset) {
            return Err(format!("round {round}: the error {e:?} does not identify the fault {fault:?}{}", where_text(&fault, &string, offset)));
        }
    }
    Ok(())
}

fn wrong_value(s: &mut Source, reg: &Rc<LanguageTagRegistry>, kind: usize) -> PlaceholderValue {
    match kind {
        0 | 5 => match s.bool() {
            true => finite_number(s),
            false => date_time_value(s),
        },
        1 | 3 => match s.bool() {
            true => string_value(s, reg),
            false => date_time_value(s),
        },
        2 => finite_number(s),
        _ => match s.below(3) {
            0 => string_value(s, reg),
            1 => date_time_value(s),
            _ => PlaceholderValue::Integer(gen_i128(s)),
        },
    }
}

/// Token at a byte offset, with the number of graphemes of the tokens before it.
fn token_at(string: &str, offset: usize) -> (usize, String) {
    let seg = GraphemeClusterSegmenter::new();
    let (mut bytes, mut graphemes) = (0, 0);
    for t in split_tokens(string) {
        if bytes == offset {
            return (graphemes, t);
        }
        bytes += t.len();
        graphemes += seg.segment_str(&t).count() - 1;
    }
    panic!("harness: no token at {offset} of {string:?}");
}

fn where_text(f: &Fault, string: &str, offset: usize) -> String {
    match f {
        Fault::Token(o) | Fault::Double(o) => format!(" at {:?}", token_at(string, offset + o)),
        _ => String::new(),
    }
}

fn identified(f: &Fault, e: &LocaliserError, string: &str, offset: usize) -> bool {
    let LocaliserError::Formatter(e) = e else { return false };
    match f {
        Fault::Token(o) => {
            let (p, t) = token_at(string, offset + o);
            matches!(e, FormatterError::Tree(TreeError::InvalidToken(_, a, b)) if *a == p && *b == t)
        }
        Fault::Double(o) => {
            let (p, _) = token_at(string, offset + o);
            matches!(e, FormatterError::Tree(TreeError::MultiNumberSign(a)) if *a == p)
        }
        Fault::End => matches!(e, FormatterError::Tree(TreeError::EndedAbruptly)),
        Fault::RepeatedPlaceholder(n) => matches!(e, FormatterError::Tree(TreeError::UniquePattern(a)) if a == n),
        Fault::RepeatedNamed(n) => {
            matches!(e, FormatterError::Tree(TreeError::UniqueNamed(a)) if a == n) || matches!(e, FormatterError::NamedStringIdentifier(a) if a == n)
        }
        Fault::NamedMain => matches!(e, FormatterError::NamedStringIdentifier(a) if a == "_"),
        Fault::Keyword(k, n) => matches!(e, FormatterError::InvalidKeyword(a, b) if a == k && b == n),
        Fault::Option(o, k, n) => matches!(e, FormatterError::InvalidOption(a, b, c) if a == o && b == k && c == n),
        Fault::OptionValue(v, o, k) => matches!(e, FormatterError::InvalidOptionValue(a, b, c) if a == v && b == o && c == k),
        Fault::Selector(o, k, n) => matches!(e, FormatterError::InvalidSelector(a, b, c) if a == o && b == k && c == n),
        Fault::Branch(t, o, n) => matches!(e, FormatterError::SelectorNamed(a, b, c) if a == t && b == o && c == n),
        Fault::Other(k, n) => matches!(e, FormatterError::SelectorOther(a, b) if a == k && b == n),
        Fault::UnknownCommand(c) => matches!(e, FormatterError::Command(CommandError::NotFound(a)) if a == c),
        Fault::FailingCommand(n) => matches!(e, FormatterError::Command(CommandError::InvalidType(a, b)) if a == "fail" && b == n),
        Fault::MissingValue(n) => matches!(e, FormatterError::PlaceholderValue(_, b) if b == n),
        Fault::WrongValue(k) => matches!(e, FormatterError::InvalidValue(a) if a.contains(k)),
        Fault::NoBranch(v) => matches!(e, FormatterError::SelectorsIndexNamed(a, _) if a == v),
    }
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C29",
    rule: "a valid pattern (reference evaluator: formats) with exactly one fault of 17 kinds put at a random place; the error must identify the element, and its position in graphemes, in two formats in a row; non-trivial: the pattern around the fault has more than 20 bytes",
    tape: 900,
    quick: 50000,
    thorough: 2000000,
    level: "exploration",
    assumptions: &["grapheme clusters are those of the ICU segmenter for the text of each token"],
    run: c29,
    fixed: None,
}];
