//! C25: every error can be localised with the strings that are shipped with the crates.
use crate::engine::{no_panic, CaseResult, Prop, Rec, Source};
use crate::gen::*;
use crate::mem;
use crate::model::{render, PatGen};
use i18n_lexer::{IcuError, LexerError, LexerIterator};
use i18n_localiser::{CommandError, CommandRegistry, FormatterError, Localiser, LocaliserError, TreeError};
use i18n_provider::{LocalisationProviderTrait, ProviderError};
use i18n_provider_sqlite3::{LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::{LanguageTagRegistry, LocalisationTrait, RegistryError};
use icu_calendar::CalendarError;
use icu_locid::ParserError;
use std::path::{Path, PathBuf};
use crate::Rc;

const SHIPPED: &[&str] = &[
    "crates/provider/core/l10n/i18n_provider.sqlite3",
    "crates/provider/sqlite3/l10n/i18n_provider_sqlite3.sqlite3",
    "crates/localiser/l10n/i18n_localiser.sqlite3",
    "crates/lexer/l10n/i18n_lexer.sqlite3",
];

thread_local! {
    static DIR: PathBuf = {
        let d = shared_dir();
        std::fs::create_dir_all(&d).unwrap();
        for f in SHIPPED {
            let f = Path::new("/repo").join(f);
            std::fs::copy(&f, d.join(f.file_name().unwrap())).unwrap();
        }
        d
    };
}

thread_local! {
    /// The shipped strings with grammar in them.
    static RAW: Vec<String> = DIR.with(|d| {
        let mut v = vec![];
        for f in SHIPPED {
            let c = rusqlite::Connection::open_with_flags(d.join(Path::new(f).file_name().unwrap()), rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY).unwrap();
            let mut q = c.prepare("SELECT string FROM pattern").unwrap();
            for x in q.query_map([], |r| r.get::<_, String>(0)).unwrap() {
                v.push(x.unwrap());
            }
        }
        v.retain(|x| x.contains('{') && x.chars().count() > 12);
        v
    });
}

fn shared_dir() -> PathBuf {
    // Beside the scratch directory of the single cases.
    let d = scratch();
    let mut n = d.file_name().unwrap().to_os_string();
    n.push("-shipped");
    d.parent().unwrap().join(n)
}

#[derive(Clone, Debug)]
pub enum Any {
    Tree(TreeError),
    Command(CommandError),
    Localiser(LocaliserError),
    Formatter(FormatterError),
    Provider(ProviderError),
    Registry(RegistryError),
    Lexer(LexerError),
    Icu(Rc<IcuError>),
    Sqlite(ProviderSqlite3Error),
    Schema(SchemaError),
}

/// What the text of an error has to say.
#[derive(Clone, Debug)]
enum Need {
    /// Type and variant.
    Name(String),
    /// A payload in its role: the words before it in English and Italian.
    Role { en: &'static str, it: &'static str, payload: String, quoted: bool, english: bool },
    /// Text of an error of another library.
    Text(String),
    /// Whether fallback was used.
    Fallback(bool),
    /// The localised message differs between the languages.
    Message,
}

const QUOTES: &[(&str, &str)] = &[("‘", "’"), ("“", "”"), ("\"", "\""), ("'", "'"), ("«", "»")];

fn has_role(text: &str, noun: &str, payload: &str, quoted: bool) -> bool {
    if quoted {
        let lead = if noun.is_empty() { String::new() } else { format!("{noun} ") };
        QUOTES.iter().any(|(a, b)| text.contains(&format!("{lead}{a}{payload}{b}")))
    } else {
        let p = format!("{noun} {payload}");
        let mut rest = text;
        while let Some(i) = rest.find(&p) {
            rest = &rest[i + p.len()..];
            if !rest.starts_with(|c: char| c.is_alphanumeric()) {
                return true;
            }
        }
        false
    }
}

impl Need {
    fn met(&self, text: &str, italian: bool) -> bool {
        match self {
            Need::Name(n) => text.contains(n.as_str()),
            Need::Text(t) => text.contains(t.as_str()),
            Need::Message => true,
            Need::Fallback(f) => {
                has_role(text, "Fallback was used:", if *f { "True" } else { "False" }, false)
                    || italian && has_role(text, "fallback:", if *f { "Vero" } else { "Falso" }, false)
            }
            Need::Role { en, it, payload, quoted, english } => {
                let e = has_role(text, en, payload, *quoted);
                match (italian, english) {
                    (false, _) => e,
                    (true, true) => e || has_role(text, it, payload, *quoted),
                    (true, false) => has_role(text, it, payload, *quoted),
                }
            }
        }
    }
}

fn q(n: &mut Vec<Need>, en: &'static str, it: &'static str, payload: impl ToString) {
    n.push(Need::Role { en, it, payload: payload.to_string(), quoted: true, english: false });
}
fn u(n: &mut Vec<Need>, en: &'static str, it: &'static str, payload: impl ToString) {
    n.push(Need::Role { en, it, payload: payload.to_string(), quoted: false, english: false });
}
/// Errors that may be embedded with their English text.
fn embed(n: &mut Vec<Need>, e: Any) {
    for mut x in needs(&e) {
        match &mut x {
            Need::Role { english, .. } => *english = true,
            Need::Message => continue,
            _ => {}
        }
        n.push(x);
    }
}

thread_local! {
    /// The errors that were put into trait objects, by their display text.
    static CUSTOM: std::cell::RefCell<Vec<(String, Any)>> = const { std::cell::RefCell::new(vec![]) };
}
fn made(e: Any, display: String) {
    CUSTOM.with(|c| c.borrow_mut().push((display, e)));
}
fn custom(display: &str) -> Vec<Need> {
    let e = CUSTOM.with(|c| c.borrow().iter().find(|x| x.0 == display).map(|x| x.1.clone()));
    match e {
        Some(e) => needs(&e),
        None => vec![Need::Name(display.split(": ").next().unwrap().to_string())],
    }
}

fn needs(e: &Any) -> Vec<Need> {
    let mut n = vec![];
    let name = |n: &mut Vec<Need>, t: &str, v: &str, message: bool| {
        n.push(Need::Name(format!("{t}::{v}")));
        if message {
            n.push(Need::Message);
        }
    };
    match e {
        Any::Tree(e) => match e {
            TreeError::Lexer(x) => {
                name(&mut n, "TreeError", "Lexer", false);
                n.append(&mut needs(&Any::Lexer(x.clone())));
            }
            TreeError::EndedAbruptly => name(&mut n, "TreeError", "EndedAbruptly", true),
            TreeError::InvalidToken(state, p, t) => {
                name(&mut n, "TreeError", "InvalidToken", true);
                q(&mut n, "state", "parser", state.to_string());
                u(&mut n, "position", "posizione", p);
                q(&mut n, "token", "non valido", t);
            }
            TreeError::UniquePattern(s) => {
                name(&mut n, "TreeError", "UniquePattern", true);
                q(&mut n, "identifier", "identificatore", s);
            }
            TreeError::MultiNumberSign(p) => {
                name(&mut n, "TreeError", "MultiNumberSign", true);
                u(&mut n, "position", "posizione", p);
            }
            TreeError::UniqueNamed(s) => {
                name(&mut n, "TreeError", "UniqueNamed", true);
                q(&mut n, "identifier", "identificatore", s);
            }
            _ => {}
        },
        Any::Command(e) => match e {
            CommandError::Custom(x) => {
                name(&mut n, "CommandError", "Custom", false);
                n.append(&mut custom(&x.to_string()));
            }
            CommandError::AlreadyExists(s) => {
                name(&mut n, "CommandError", "AlreadyExists", true);
                q(&mut n, "command", "comando", s);
            }
            CommandError::NotFound(s) => {
                name(&mut n, "CommandError", "NotFound", true);
                q(&mut n, "command", "comando", s);
            }
            CommandError::ParameterMissing(s, i) => {
                name(&mut n, "CommandError", "ParameterMissing", true);
                q(&mut n, "command", "comando", s);
                u(&mut n, "number", "parametro", i);
            }
            CommandError::InvalidType(s, i) => {
                name(&mut n, "CommandError", "InvalidType", true);
                q(&mut n, "command", "comando", s);
                u(&mut n, "number", "parametro", i);
            }
            _ => {}
        },
        Any::Localiser(e) => match e {
            LocaliserError::Registry(x) => {
                name(&mut n, "LocaliserError", "Registry", false);
                n.append(&mut needs(&Any::Registry(*x)));
            }
            LocaliserError::Formatter(x) => {
                name(&mut n, "LocaliserError", "Formatter", false);
                n.append(&mut needs(&Any::Formatter(x.clone())));
            }
            LocaliserError::Provider(x) => {
                name(&mut n, "LocaliserError", "Provider", false);
                n.append(&mut needs(&Any::Provider(x.clone())));
            }
            LocaliserError::StringNotFound(c, i, t, f) => {
                name(&mut n, "LocaliserError", "StringNotFound", true);
                q(&mut n, "component", "componente", c);
                q(&mut n, "identifier", "identificatore", i);
                q(&mut n, "language tag", "tag della lingua", t);
                n.push(Need::Fallback(*f));
            }
            LocaliserError::CacheEntry(c, i) => {
                name(&mut n, "LocaliserError", "CacheEntry", true);
                q(&mut n, "component", "componente", c);
                q(&mut n, "identifier", "identificatore", i);
            }
            LocaliserError::NeverReached => name(&mut n, "LocaliserError", "NeverReached", true),
            _ => {}
        },
        Any::Formatter(e) => {
            let t = "FormatterError";
            match e {
                FormatterError::Localiser(x) => {
                    name(&mut n, t, "Localiser", false);
                    embed(&mut n, Any::Localiser((**x).clone()));
                }
                FormatterError::Tree(x) => {
                    name(&mut n, t, "Tree", false);
                    embed(&mut n, Any::Tree(x.clone()));
                }
                FormatterError::Command(x) => {
                    name(&mut n, t, "Command", false);
                    embed(&mut n, Any::Command(x.clone()));
                }
                FormatterError::Locale(x) => {
                    name(&mut n, t, "Locale", false);
                    n.push(Need::Text(x.to_string()));
                }
                FormatterError::Calendar(x) => {
                    name(&mut n, t, "Calendar", false);
                    n.push(Need::Text(x.to_string()));
                }
                FormatterError::ParseInt(x) => {
                    name(&mut n, t, "ParseInt", false);
                    n.push(Need::Text(x.to_string()));
                }
                FormatterError::Decimal(x) => {
                    name(&mut n, t, "Decimal", false);
                    n.push(Need::Text(x.to_string()));
                }
                FormatterError::DateTime(x) => {
                    name(&mut n, t, "DateTime", false);
                    n.push(Need::Text(x.to_string()));
                }
                FormatterError::PluralRules(x) => {
                    name(&mut n, t, "PluralRules", false);
                    n.push(Need::Text(x.to_string()));
                }
                FormatterError::FixedDecimal(x) => {
                    name(&mut n, t, "FixedDecimal", false);
                    n.push(Need::Text(x.to_string()));
                }
                FormatterError::InvalidRoot => name(&mut n, t, "InvalidRoot", true),
                FormatterError::NoGrammar => name(&mut n, t, "NoGrammar", true),
                FormatterError::NoIcuProvider => name(&mut n, t, "NoIcuProvider", true),
                FormatterError::NeverReached => name(&mut n, t, "NeverReached", true),
                FormatterError::RetrieveChildren(x) => {
                    name(&mut n, t, "RetrieveChildren", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::NodeNotFound(x) => {
                    name(&mut n, t, "NodeNotFound", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::FirstChild(x) => {
                    name(&mut n, t, "FirstChild", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::RetrieveNodeData(x) => {
                    name(&mut n, t, "RetrieveNodeData", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::RetrieveNodeToken(x) => {
                    name(&mut n, t, "RetrieveNodeToken", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::LastChild(x) => {
                    name(&mut n, t, "LastChild", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::InvalidNode(x) => {
                    name(&mut n, t, "InvalidNode", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::NoChildren(x) => {
                    name(&mut n, t, "NoChildren", true);
                    q(&mut n, "", "", x.to_string());
                }
                FormatterError::PatternNamed(s) => {
                    name(&mut n, t, "PatternNamed", true);
                    q(&mut n, "named string", "stringa denominata", s);
                }
                FormatterError::PatternPart(s, i) => {
                    name(&mut n, t, "PatternPart", true);
                    q(&mut n, "named string", "stringa denominata", s);
                    q(&mut n, "part", "parte", i);
                }
                FormatterError::InvalidOptionValue(v, o, k) => {
                    name(&mut n, t, "InvalidOptionValue", true);
                    q(&mut n, "value", "valore", v);
                    q(&mut n, "option", "opzione", o);
                    q(&mut n, "keyword", "parola chiave", k);
                }
                FormatterError::InvalidKeyword(k, p) => {
                    name(&mut n, t, "InvalidKeyword", true);
                    q(&mut n, "keyword", "valida", k);
                    q(&mut n, "placeholder", "segnaposto", p);
                }
                FormatterError::SelectorNamed(a, s, p) => {
                    name(&mut n, t, "SelectorNamed", true);
                    q(&mut n, "named string identifier", "stringa denominata", a);
                    q(&mut n, "selector", "selettore", s);
                    q(&mut n, "placeholder", "segnaposto", p);
                }
                FormatterError::SelectorOther(k, p) => {
                    name(&mut n, t, "SelectorOther", true);
                    q(&mut n, "keyword", "parola chiave", k);
                    q(&mut n, "placeholder", "segnaposto", p);
                }
                FormatterError::InvalidOption(o, k, p) => {
                    name(&mut n, t, "InvalidOption", true);
                    q(&mut n, "option", "pzione", o);
                    q(&mut n, "keyword", "parola chiave", k);
                    q(&mut n, "placeholder", "segnaposto", p);
                }
                FormatterError::InvalidSelector(o, k, p) => {
                    name(&mut n, t, "InvalidSelector", true);
                    q(&mut n, "selector", "elettore", o);
                    q(&mut n, "keyword", "parola chiave", k);
                    q(&mut n, "placeholder", "segnaposto", p);
                }
                FormatterError::NumberSignString(i) => {
                    name(&mut n, t, "NumberSignString", true);
                    u(&mut n, "index", "NumberSign", i);
                }
                FormatterError::SelectorsIndex(i) => {
                    name(&mut n, t, "SelectorsIndex", true);
                    u(&mut n, "index", "indice", i);
                }
                FormatterError::SelectorsIndexNamed(s, i) => {
                    name(&mut n, t, "SelectorsIndexNamed", true);
                    q(&mut n, "named string", "stringa denominata", s);
                    u(&mut n, "index", "selettori", i);
                }
                FormatterError::PlaceholderValue(k, p) => {
                    name(&mut n, t, "PlaceholderValue", true);
                    q(&mut n, "pattern part", "pattern", k);
                    q(&mut n, "placeholder", "segnaposto", p);
                }
                FormatterError::InvalidValue(k) => {
                    name(&mut n, t, "InvalidValue", true);
                    q(&mut n, "pattern part", "pattern", k);
                }
                FormatterError::NamedStringIdentifier(s) => {
                    name(&mut n, t, "NamedStringIdentifier", true);
                    q(&mut n, "identifier", "denominato", s);
                }
                _ => {}
            }
        }
        Any::Provider(e) => match e {
            ProviderError::ComponentNotFound(c) => {
                name(&mut n, "ProviderError", "ComponentNotFound", true);
                q(&mut n, "component", "componente", c);
            }
            ProviderError::LanguageTagRegistry(x) => {
                name(&mut n, "ProviderError", "LanguageTagRegistry", false);
                n.append(&mut needs(&Any::Registry(*x)));
            }
            ProviderError::DefaultLanguage(c) => {
                name(&mut n, "ProviderError", "DefaultLanguage", true);
                q(&mut n, "component", "componente", c);
            }
            ProviderError::InvalidDefaultLanguage(c) => {
                name(&mut n, "ProviderError", "InvalidDefaultLanguage", true);
                q(&mut n, "component", "componente", c);
            }
            ProviderError::DefaultLanguageCount(c, l) => {
                name(&mut n, "ProviderError", "DefaultLanguageCount", true);
                q(&mut n, "component", "componente", c);
                q(&mut n, "language tag", "predefinito", l);
            }
            ProviderError::Custom(x) => {
                name(&mut n, "ProviderError", "Custom", false);
                n.append(&mut custom(&x.to_string()));
            }
            _ => {}
        },
        Any::Registry(e) => {
            n.push(Need::Name("RegistryError::".to_string()));
            // The name of the variant depends on the features.
            name(&mut n, "RegistryError", if cfg!(feature = "extra") { "Locale" } else { "LanguageIdentifier" }, false);
            let debug = format!("{e:?}");
            for x in [ParserError::InvalidLanguage, ParserError::InvalidSubtag, ParserError::InvalidExtension, ParserError::DuplicatedExtension] {
                if debug.ends_with(&format!("({x:?})")) {
                    n.push(Need::Text(x.to_string()));
                }
            }
        }
        Any::Lexer(e) => match e {
            LexerError::NoGrammar => name(&mut n, "LexerError", "NoGrammar", true),
            LexerError::EmptyString => name(&mut n, "LexerError", "EmptyString", true),
            _ => {}
        },
        Any::Icu(e) => match &**e {
            // The display text of these has no type and variant.
            IcuError::Grapheme => q(&mut n, "", "", "GraphemeClusterSegmenter"),
            IcuError::Syntax => q(&mut n, "", "", "Pattern_Syntax"),
            IcuError::WhiteSpace => q(&mut n, "", "", "Pattern_White_Space"),
            #[allow(unreachable_patterns)]
            _ => {}
        },
        Any::Sqlite(e) => {
            let t = "ProviderSqlite3Error";
            match e {
                ProviderSqlite3Error::Io(x) => {
                    name(&mut n, t, "Io", false);
                    n.push(Need::Text(x.to_string()));
                }
                ProviderSqlite3Error::Sqlite3(x) => {
                    name(&mut n, t, "Sqlite3", false);
                    n.push(Need::Text(x.to_string()));
                }
                ProviderSqlite3Error::NotDirectory(p) => {
                    name(&mut n, t, "NotDirectory", true);
                    q(&mut n, "path", "percorso fornito", p.display());
                }
                ProviderSqlite3Error::NoSqlite3Files(p) => {
                    name(&mut n, t, "NoSqlite3Files", true);
                    q(&mut n, "in", "cartella", p.display());
                }
                ProviderSqlite3Error::PathConversion => name(&mut n, t, "PathConversion", true),
                ProviderSqlite3Error::NotExists(p) => {
                    name(&mut n, t, "NotExists", true);
                    q(&mut n, "path", "percorso fornito", p.display());
                }
                ProviderSqlite3Error::SchemaInvalid(x) => {
                    name(&mut n, t, "SchemaInvalid", false);
                    n.append(&mut needs(&Any::Schema(x.clone())));
                }
                _ => {}
            }
        }
        Any::Schema(e) => match e {
            SchemaError::Sqlite3(x) => {
                name(&mut n, "SchemaError", "Sqlite3", false);
                n.push(Need::Text(x.to_string()));
            }
            SchemaError::Version(p, v) => {
                name(&mut n, "SchemaError", "Version", true);
                q(&mut n, "file", "\"Sqlite3\"", p);
                q(&mut n, "must be", "deve essere", v);
            }
            SchemaError::MissingVersion(p) => {
                name(&mut n, "SchemaError", "MissingVersion", true);
                q(&mut n, "file", "\"Sqlite3\"", p);
            }
            // The texts of the others have no type and variant.
            SchemaError::MissingTable(t) => {
                n.push(Need::Message);
                q(&mut n, "table", "tabella", t);
            }
            SchemaError::MissingColumn(t, c) => {
                n.push(Need::Message);
                q(&mut n, "table", "tabella", t);
                q(&mut n, "column", "colonna", c);
            }
            SchemaError::ColumnProperty(t, c, p) => {
                n.push(Need::Message);
                q(&mut n, "table", "tabella", t);
                q(&mut n, "column", "colonna", c);
                q(&mut n, "property", "proprietà", p);
            }
            SchemaError::ColumnDefault(t, c, d) => {
                n.push(Need::Message);
                q(&mut n, "table", "tabella", t);
                q(&mut n, "column", "colonna", c);
                q(&mut n, "value of", "predefinito", d);
            }
            SchemaError::ColumnMismatch(t, c) => {
                n.push(Need::Message);
                q(&mut n, "table", "tabella", t);
                q(&mut n, "column", "colonna", c);
            }
            _ => {}
        },
    }
    n
}

/// Payload text: anything, also what looks like patterns.
fn payload(s: &mut Source) -> String {
    match s.weighted(&[4, 2, 3, 1]) {
        0 => ident(s),
        1 => text(s, 6),
        2 => s.pick(&["{a}", "#", "`", "{", "}", "{`x`}", "a b", "’", "”", "\"", "{a select b#c}#{c d}", "é", "0", "1", "true"]).to_string(),
        _ => String::new(),
    }
}

fn number(s: &mut Source) -> usize {
    match s.below(3) {
        0 => s.below(20),
        1 => s.below(100_000),
        _ => s.u64() as usize,
    }
}

fn parser_error(s: &mut Source) -> ParserError {
    *s.pick(&[ParserError::InvalidLanguage, ParserError::InvalidSubtag, ParserError::InvalidExtension, ParserError::DuplicatedExtension])
}
fn registry(s: &mut Source) -> RegistryError {
    RegistryError::from(parser_error(s))
}
fn lexer(s: &mut Source) -> LexerError {
    if s.bool() { LexerError::NoGrammar } else { LexerError::EmptyString }
}
fn tree(s: &mut Source) -> TreeError {
    match s.below(5) {
        0 => TreeError::EndedAbruptly,
        1 => TreeError::UniquePattern(payload(s)),
        2 => TreeError::MultiNumberSign(number(s)),
        3 => TreeError::UniqueNamed(payload(s)),
        _ => TreeError::from(lexer(s)),
    }
}
fn command(s: &mut Source, depth: usize) -> CommandError {
    match s.below(if depth == 0 { 4 } else { 5 }) {
        0 => CommandError::AlreadyExists(payload(s)),
        1 => CommandError::NotFound(payload(s)),
        2 => CommandError::ParameterMissing(payload(s), number(s)),
        3 => CommandError::InvalidType(payload(s), number(s)),
        _ => CommandError::Custom(Rc::new(match s.below(4) {
            0 => {
                let e = registry(s);
                made(Any::Registry(e), e.to_string());
                Box::new(e)
            }
            1 => {
                let e = command(s, depth - 1);
                made(Any::Command(e.clone()), e.to_string());
                Box::new(e)
            }
            2 => {
                let e = tree(s);
                made(Any::Tree(e.clone()), e.to_string());
                Box::new(e)
            }
            _ => {
                let e = localiser(s, depth - 1);
                made(Any::Localiser(e.clone()), e.to_string());
                Box::new(e)
            }
        })),
    }
}
fn sqlite_error(s: &mut Source) -> rusqlite::Error {
    match s.below(5) {
        0 => rusqlite::Error::QueryReturnedNoRows,
        1 => rusqlite::Error::InvalidColumnName(payload(s)),
        2 => rusqlite::Error::InvalidParameterName(payload(s)),
        3 => rusqlite::Error::InvalidPath(PathBuf::from(payload(s))),
        _ => rusqlite::Error::InvalidColumnIndex(number(s)),
    }
}
fn schema(s: &mut Source) -> SchemaError {
    match s.below(8) {
        0 => SchemaError::Sqlite3(Rc::new(sqlite_error(s))),
        1 => SchemaError::MissingTable(payload(s)),
        2 => SchemaError::Version(payload(s), payload(s)),
        3 => SchemaError::MissingVersion(payload(s)),
        4 => SchemaError::MissingColumn(payload(s), payload(s)),
        5 => SchemaError::ColumnProperty(payload(s), payload(s), payload(s)),
        6 => SchemaError::ColumnDefault(payload(s), payload(s), payload(s)),
        _ => SchemaError::ColumnMismatch(payload(s), payload(s)),
    }
}
fn sqlite(s: &mut Source) -> ProviderSqlite3Error {
    match s.below(7) {
        0 => ProviderSqlite3Error::Io(Rc::new(std::io::Error::new(std::io::ErrorKind::Other, payload(s)))),
        1 => ProviderSqlite3Error::Sqlite3(Rc::new(sqlite_error(s))),
        2 => ProviderSqlite3Error::NotDirectory(PathBuf::from(payload(s))),
        3 => ProviderSqlite3Error::NoSqlite3Files(PathBuf::from(payload(s))),
        4 => ProviderSqlite3Error::PathConversion,
        5 => ProviderSqlite3Error::NotExists(PathBuf::from(payload(s))),
        _ => ProviderSqlite3Error::SchemaInvalid(schema(s)),
    }
}
fn provider(s: &mut Source) -> ProviderError {
    match s.below(6) {
        0 => ProviderError::ComponentNotFound(payload(s)),
        1 => ProviderError::LanguageTagRegistry(registry(s)),
        2 => ProviderError::DefaultLanguage(payload(s)),
        3 => ProviderError::InvalidDefaultLanguage(payload(s)),
        4 => ProviderError::DefaultLanguageCount(payload(s), payload(s)),
        _ => {
            let e = sqlite(s);
            made(Any::Sqlite(e.clone()), e.to_string());
            match s.bool() {
                true => ProviderError::from(e),
                false => ProviderError::Custom(Rc::new(Box::new(e))),
            }
        }
    }
}
fn localiser(s: &mut Source, depth: usize) -> LocaliserError {
    match s.below(if depth == 0 { 5 } else { 6 }) {
        0 => LocaliserError::StringNotFound(payload(s), payload(s), payload(s), s.bool()),
        1 => LocaliserError::CacheEntry(payload(s), payload(s)),
        2 => LocaliserError::NeverReached,
        3 => LocaliserError::from(registry(s)),
        4 => LocaliserError::from(provider(s)),
        _ => LocaliserError::from(formatter(s, depth - 1)),
    }
}
fn formatter(s: &mut Source, depth: usize) -> FormatterError {
    match s.below(if depth == 0 { 26 } else { 29 }) {
        0 => FormatterError::from(parser_error(s)),
        1 => FormatterError::Calendar(match s.below(3) {
            0 => CalendarError::OutOfRange,
            1 => CalendarError::Parse,
            _ => CalendarError::UnknownAnyCalendarKind("unknown".parse().unwrap()),
        }),
        2 => FormatterError::ParseInt(s.pick(&["x", "", "99999999999"]).parse::<i32>().unwrap_err()),
        3 => FormatterError::DateTime(icu_datetime::DateTimeError::from(CalendarError::OutOfRange)),
        4 => FormatterError::FixedDecimal(if s.bool() { fixed_decimal::Error::Limit } else { fixed_decimal::Error::Syntax }),
        5 => FormatterError::NoGrammar,
        6 => FormatterError::InvalidRoot,
        7 => FormatterError::NoIcuProvider,
        8 => FormatterError::NeverReached,
        9 => FormatterError::PatternNamed(payload(s)),
        10 => FormatterError::PatternPart(payload(s), number(s)),
        11 => FormatterError::InvalidOptionValue(payload(s), payload(s), payload(s)),
        12 => FormatterError::InvalidKeyword(payload(s), payload(s)),
        13 => FormatterError::SelectorNamed(payload(s), payload(s), payload(s)),
        14 => FormatterError::SelectorOther(payload(s), payload(s)),
        15 => FormatterError::InvalidOption(payload(s), payload(s), payload(s)),
        16 => FormatterError::InvalidSelector(payload(s), payload(s), payload(s)),
        17 => FormatterError::NumberSignString(number(s)),
        18 => FormatterError::SelectorsIndex(number(s)),
        19 => FormatterError::SelectorsIndexNamed(payload(s), number(s)),
        20 => FormatterError::PlaceholderValue(payload(s), payload(s)),
        21 => FormatterError::InvalidValue(payload(s)),
        22 => FormatterError::NamedStringIdentifier(payload(s)),
        23 => FormatterError::Decimal(icu_decimal::Error::from(icu_provider::DataErrorKind::MissingLocale.into_error())),
        24 => FormatterError::PluralRules(icu_plurals::Error::from(icu_provider::DataErrorKind::MissingDataKey.into_error())),
        25 => FormatterError::Tree(tree(s)),
        26 => FormatterError::Command(command(s, depth - 1)),
        _ => FormatterError::from(localiser(s, depth - 1)),
    }
}

/// An error returned by a failing call.
fn provoked(s: &mut Source, reg: &Rc<LanguageTagRegistry>, rec: &mut Rec) -> Option<Any> {
    match s.weighted(&[4, 3, 2, 2, 2, 2]) {
        0 => {
            rec.class("provoked: pattern");
            let string = crate::props::pattern::soup(s);
            mem::format_string(&string, locale(s), &Default::default(), reg, s.bool()).err().map(Any::Localiser)
        }
        1 => {
            rec.class("provoked: value");
            let mut g = PatGen { max_parts: 3, max_named: 2, ..Default::default() };
            let p = g.pattern(s);
            let string = render(s, &p);
            let v = g.values(s, reg, 8);
            mem::format_string(&string, locale(s), &crate::model::to_hash(&v), reg, s.bool()).err().map(Any::Localiser)
        }
        2 => {
            rec.class("provoked: registry");
            let t = text(s, 6);
            reg.tag(&t).err().map(Any::Registry)
        }
        3 => {
            rec.class("provoked: provider");
            let mut d = scratch();
            let mut name = ident(s);
            name.retain(|c| c != '\0' && c != '/');
            name.truncate((0..=name.len().min(60)).rev().find(|i| name.is_char_boundary(*i)).unwrap_or(0));
            d.push(format!("x{name}"));
            match s.below(3) {
                0 => {}
                1 => std::fs::create_dir_all(&d).ok()?,
                _ => std::fs::write(&d, "x").ok()?,
            }
            LocalisationProviderSqlite3::try_new(d.as_path(), reg, false).err().map(Any::Sqlite)
        }
        4 => {
            rec.class("provoked: lexer and commands");
            match s.below(3) {
                0 => LexerIterator::try_new("", "{", &icu()).err().map(Any::Lexer),
                1 => {
                    let r = CommandRegistry::new();
                    let n = payload(s);
                    let _ = r.insert(n.as_str(), mem::nothing);
                    r.insert(n.as_str(), mem::nothing).err().map(Any::Command)
                }
                _ => i18n_localiser::file_path(vec![any_value(s, reg)]).err().map(Any::Command),
            }
        }
        _ => {
            rec.class("provoked: lookup");
            DIR.with(|d| {
                let p = LocalisationProviderSqlite3::try_new(d.as_path(), reg, false).ok()?;
                let c = if s.bool() { "i18n_localiser".to_string() } else { ident(s) };
                let l = Localiser::try_new(&icu(), reg, Box::new(p), &mem::commands(), s.bool(), false, "it").ok()?;
                l.literal(&c, &ident(s), &reg.tag(locale(s)).ok()?, None, None).err().map(Any::Localiser)
            })
        }
    }
}

fn any(s: &mut Source, reg: &Rc<LanguageTagRegistry>, rec: &mut Rec) -> Option<Any> {
    Some(match s.weighted(&[2, 2, 4, 8, 2, 1, 1, 1, 2, 2, 6]) {
        0 => Any::Tree(tree(s)),
        1 => Any::Command(command(s, 2)),
        2 => Any::Localiser(localiser(s, 3)),
        3 => Any::Formatter(formatter(s, 2)),
        4 => Any::Provider(provider(s)),
        5 => Any::Registry(registry(s)),
        6 => Any::Lexer(lexer(s)),
        7 => Any::Icu(Rc::new(match s.below(3) {
            0 => IcuError::Grapheme,
            1 => IcuError::Syntax,
            _ => IcuError::WhiteSpace,
        })),
        8 => Any::Sqlite(sqlite(s)),
        9 => Any::Schema(schema(s)),
        _ => return provoked(s, reg, rec).map(|e| peeled(s, e)),
    })
}

/// The error itself, or an error it embeds.
fn peeled(s: &mut Source, e: Any) -> Any {
    if s.bool() {
        return e;
    }
    match e {
        Any::Localiser(LocaliserError::Formatter(x)) => peeled(s, Any::Formatter(x)),
        Any::Localiser(LocaliserError::Registry(x)) => peeled(s, Any::Registry(x)),
        Any::Localiser(LocaliserError::Provider(x)) => peeled(s, Any::Provider(x)),
        Any::Formatter(FormatterError::Tree(x)) => Any::Tree(x),
        Any::Formatter(FormatterError::Command(x)) => Any::Command(x),
        Any::Sqlite(ProviderSqlite3Error::SchemaInvalid(x)) => Any::Schema(x),
        e => e,
    }
}

fn c25(s: &mut Source, rec: &mut Rec) -> CaseResult {
    let reg = Rc::new(LanguageTagRegistry::new());
    CUSTOM.with(|c| c.borrow_mut().clear());
    let Some(e) = any(s, &reg, rec) else { return Ok(()) };
    check(s, rec, &reg, &e)
}

fn check(s: &mut Source, rec: &mut Rec, reg: &Rc<LanguageTagRegistry>, e: &Any) -> CaseResult {
    let caching = s.bool();
    let other = *s.pick(&["fr", "zh-Hant-HK", "pl", "und", "de-AT", "ar"]);
    let defaults = s.bool();
    let (data, display) = match e {
        Any::Tree(e) => (e.localisation_data(), e.to_string()),
        Any::Command(e) => (e.localisation_data(), e.to_string()),
        Any::Localiser(e) => (e.localisation_data(), e.to_string()),
        Any::Formatter(e) => (e.localisation_data(), e.to_string()),
        Any::Provider(e) => (e.localisation_data(), e.to_string()),
        Any::Registry(e) => (e.localisation_data(), e.to_string()),
        Any::Lexer(e) => (e.localisation_data(), e.to_string()),
        Any::Icu(e) => (e.localisation_data(), e.to_string()),
        Any::Sqlite(e) => (e.localisation_data(), e.to_string()),
        Any::Schema(e) => (e.localisation_data(), e.to_string()),
    };
    rec.case(format!("{e:?} caching {caching} other {other} defaults {defaults}"));
    let needs = needs(e);
    rec.nontrivial = needs.iter().any(|n| matches!(n, Need::Role { .. } | Need::Text(_)));
    rec.class(match e {
        Any::Tree(_) => "TreeError",
        Any::Command(_) => "CommandError",
        Any::Localiser(_) => "LocaliserError",
        Any::Formatter(_) => "FormatterError",
        Any::Provider(_) => "ProviderError",
        Any::Registry(_) => "RegistryError",
        Any::Lexer(_) => "LexerError",
        Any::Icu(_) => "IcuError",
        Any::Sqlite(_) => "ProviderSqlite3Error",
        Any::Schema(_) => "SchemaError",
    });
    rec.class_if(needs.iter().filter(|n| matches!(n, Need::Name(_))).count() > 1, "embedded");
    let fail = |what: &str, n: &Need, t: &str| Err(format!("{what} {t:?} lacks {n:?} of the error {e:?}"));
    for n in &needs {
        if !n.met(&display, false) {
            return fail("the display text", n, &display);
        }
    }
    DIR.with(|d| {
        let p = LocalisationProviderSqlite3::try_new(d.as_path(), reg, false).map_err(|e| format!("shipped repository: {e}"))?;
        let l = Localiser::try_new(&icu(), reg, Box::new(p), &mem::commands(), true, caching, "it").map_err(|e| format!("localiser: {e}"))?;
        let mut texts: Vec<String> = vec![];
        for (tag, fallback) in [("en-ZA", Some(false)), ("it", Some(true)), ("it-CH", Some(true)), (other, None), ("en-ZA", None), ("it", None)] {
            let t = reg.tag(tag).unwrap();
            if defaults {
                l.defaults(Some(Rc::clone(&t)), fallback, None);
            }
            let f = |l: &Localiser| match (e, defaults) {
                (Any::Tree(e), false) => l.format_error(e, &t, fallback, None),
                (Any::Command(e), false) => l.format_error(e, &t, fallback, None),
                (Any::Localiser(e), false) => l.format_error(e, &t, fallback, None),
                (Any::Formatter(e), false) => l.format_error(e, &t, fallback, None),
                (Any::Provider(e), false) => l.format_error(e, &t, fallback, None),
                (Any::Registry(e), false) => l.format_error(e, &t, fallback, None),
                (Any::Lexer(e), false) => l.format_error(e, &t, fallback, None),
                (Any::Icu(e), false) => l.format_error(&**e, &t, fallback, None),
                (Any::Tree(e), true) => l.format_error_with_defaults(e),
                (Any::Command(e), true) => l.format_error_with_defaults(e),
                (Any::Localiser(e), true) => l.format_error_with_defaults(e),
                (Any::Formatter(e), true) => l.format_error_with_defaults(e),
                (Any::Provider(e), true) => l.format_error_with_defaults(e),
                (Any::Registry(e), true) => l.format_error_with_defaults(e),
                (Any::Lexer(e), true) => l.format_error_with_defaults(e),
                (Any::Icu(e), true) => l.format_error_with_defaults(&**e),
                (_, false) => l.format_localisation_data(&data, &t, fallback, None),
                (_, true) => l.format_localisation_data_with_defaults(&data),
            };
            let r = no_panic("localising an error", || f(&l))?;
            let text = match r {
                Err(x) => return Err(format!("the error {e:?} is not localised for {tag} (fallback {fallback:?}): {x}")),
                Ok((t, _)) => t.to_string(),
            };
            if let Some(raw) = RAW.with(|v| v.iter().find(|x| text.contains(x.as_str())).cloned()) {
                return Err(format!("the text for {tag} {text:?} of the error {e:?} has the string {raw:?} unformatted"));
            }
            for n in &needs {
                if !n.met(&text, tag.starts_with("it")) {
                    return fail(&format!("the text for {tag}"), n, &text);
                }
            }
            texts.push(text);
        }
        if texts[2] != texts[1] || texts[5] != texts[1] {
            return Err(format!("Italian texts differ for {e:?}: {texts:?}"));
        }
        if texts[3] != texts[0] || texts[4] != texts[0] {
            return Err(format!("English texts differ for {e:?}: {texts:?}"));
        }
        if needs.iter().any(|n| matches!(n, Need::Message)) && texts[0] == texts[1] {
            return Err(format!("no Italian text for {e:?}: {:?}", texts[0]));
        }
        Ok(())
    })
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C25",
    rule: "errors of all ten error types with any payload (text that looks like patterns, large numbers), nested in each other, and errors returned by provoked failing calls, localised with the shipped repositories in en-ZA, it, it-CH and a language by fallback, with and without caching and defaults; non-trivial: the error has a payload or an embedded error",
    tape: 160,
    quick: 4000,
    thorough: 100000,
    level: "exploration",
    assumptions: &["the variants with a parser state or a node type are covered only as returned by failing calls"],
    run: c25,
    fixed: None,
}];
