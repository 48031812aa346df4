//! C20-C24, C28: the Sqlite3 provider.
use crate::engine::{no_panic, CaseResult, Prop, Rec, Source};
use crate::gen::*;
use crate::mem;
use super::registry::canonical;
use crate::model::*;
use crate::sql::{self, Db, SqlRepo, AIO, TABLES};
use crate::world::{self, World, is_no_component, is_not_found, Defaults, Op, ReqKind, Shape};
use i18n_localiser::{Localiser, LocaliserError};
use i18n_provider::{LanguageData, LocalisationProviderTrait, ProviderError};
use i18n_provider_sqlite3::{verify_schema, LocalisationProviderSqlite3, ProviderSqlite3Error, SchemaError};
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use rusqlite::Connection;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use crate::Rc;

/// Families of canonical tags that share prefixes, as subtags and as mere text.
const FAMILIES: &[&[&str]] = &[
    &["de", "de-AT", "de-1996", "de-Latn", "de-Latn-DE", "de-Latn-DE-1996", "den", "de-DE"],
    &["en", "en-ZA", "en-GB", "en-GB-oxendict", "enm", "en-US", "en-Latn", "en-Latn-ZA"],
    &["zh", "zh-Hant", "zh-Hant-HK", "zh-Hans", "zh-Hans-CN", "zh-HK", "zha", "zh-Hant-TW"],
    &["sr", "sr-Latn", "sr-Latn-RS", "sr-Cyrl", "sr-RS", "srn", "sr-Cyrl-RS"],
    &["sl", "sl-rozaj", "sl-1994-rozaj", "sl-1994", "sl-IT-nedis", "sly", "sl-SI"],
    &["sl", "sl-Latn", "sl-Latn-IT", "sl-Latn-IT-1994", "sl-Latn-IT-1994-biske", "sl-Latn-IT-1994-biske-rozaj", "sl-Latn-IT-nedis", "sl-Latn-IT-rozaj", "sl-Latn-SI"],
    &["fr", "fr-CA", "fr-FR", "frm", "fr-Latn-CA"],
    &["it", "it-CH", "it-IT", "pl", "ar", "ar-EG", "und", "ja"],
    WIDE,
];

/// More than a few.
const WIDE: &[&str] = &[
    "es", "es-419", "es-AR", "es-BO", "es-BR", "es-BZ", "es-CL", "es-CO", "es-CR", "es-CU", "es-DO", "es-EC", "es-ES", "es-GQ", "es-GT", "es-HN", "es-MX", "es-NI", "es-PA", "es-PE", "es-PH", "es-PR", "es-PY", "es-SV", "es-US", "es-UY", "es-VE", "es-Latn", "es-Latn-ES", "es-Latn-MX", "est", "es-ES-valencia",
];

fn comp_name(s: &mut Source, used: &[String]) -> String {
    let mut n = match s.weighted(&[3, 3, 2, 2, 2]) {
        0 => "application".to_string(),
        4 => any_name(s),
        1 => s.pick(&["app", "App", "APP", "i18n_lexer", "i18n", "i18n_", "a_b", "axb", "_", "comp", "Application", "é", "É"]).to_string(),
        2 => ident(s),
        _ => format!("c{}", s.below(5)),
    };
    n.retain(|c| c != '\0');
    n.truncate((0..=n.len().min(60)).rev().find(|i| n.is_char_boundary(*i)).unwrap_or(0));
    if n.is_empty() || n == AIO {
        n = "k".to_string();
    }
    while used.contains(&n) {
        n.push('1');
    }
    n
}

fn id_name(s: &mut Source, used: &[String]) -> String {
    let mut n = match s.weighted(&[4, 2, 2, 2]) {
        3 => any_name(s),
        0 => s.pick(&["id", "ID", "Id", "i_d", "ixd", "id1", "id_1", "title", "error", "_", "x", "é", "É", "e\u{301}"]).to_string(),
        1 => ident(s),
        _ => format!("n{}", s.below(9)),
    };
    if s.chance(1, 12) && !used.is_empty() {
        n = s.pick(used).to_uppercase();
    }
    n.retain(|c| c != '\0');
    if n.is_empty() {
        n.push('y');
    }
    while used.contains(&n) {
        n.push('2');
    }
    n
}

pub struct Made {
    pub repo: SqlRepo,
    pub components: Vec<String>,
    pub ids: Vec<String>,
    pub tags: Vec<&'static str>,
}

/// The databases of a component: its own file, the all-in-one file, or both.
fn homes(s: &mut Source, c: &str) -> Vec<String> {
    let k = s.weighted(&[3, 3, 3]);
    // Not every name can be the name of a file.
    match if c.contains('/') { 1 } else { k } {
        0 => vec![c.to_string()],
        1 => vec![AIO.to_string()],
        _ => vec![AIO.to_string(), c.to_string()],
    }
}

pub fn sql_repo(s: &mut Source, max_components: usize, max_strings: usize) -> Made {
    let mut m = Made { repo: SqlRepo::default(), components: vec![], ids: vec![], tags: vec![] };
    let large = s.long(60);
    // Few identifiers in very many languages.
    let wide = large && s.bool();
    let fam = if wide { WIDE } else { *s.pick(FAMILIES) };
    for t in if large && !wide { FAMILIES.concat() } else { fam.to_vec() } {
        if !s.chance(1, if wide { 9 } else { 3 }) {
            let t = extended(s, t, true);
            m.tags.push(t);
        }
    }
    if m.tags.is_empty() {
        m.tags.push(fam[0]);
    }
    if s.chance(1, 2) {
        let other = *s.pick(FAMILIES);
        for _ in 0..3 {
            let t = *s.pick(other);
            if !m.tags.contains(&t) {
                m.tags.push(t);
            }
        }
    }
    for _ in 0..1 + s.below(if wide { 2 } else if large { 60 } else { 4 }) {
        let n = id_name(s, &m.ids);
        m.ids.push(n);
    }
    let nc = 1 + s.below(if wide { 2 } else if large { 15 } else { max_components });
    for _ in 0..nc {
        let c = comp_name(s, &m.components);
        m.components.push(c.clone());
        let h = homes(s, &c);
        let mut langs: BTreeSet<&'static str> = BTreeSet::new();
        let mut pats: BTreeMap<(String, &'static str), (String, usize)> = BTreeMap::new();
        for _ in 0..s.below(if large { 150 } else { max_strings } + 1) {
            let i = s.pick(&m.ids).clone();
            let t = *s.pick(&m.tags);
            let text = if s.chance(1, 3) { text(s, 12) } else { format!("{c}/{i}/{t}") };
            langs.insert(t);
            pats.insert((i, t), (text, s.below(h.len())));
        }
        let twice = h.len() > 1 && s.chance(1, 2);
        for ((i, t), (text, w)) in pats {
            if twice && s.chance(1, 3) {
                // Another string in the other file.
                m.repo.files.entry(h[1 - w].clone()).or_default().patterns.push((c.clone(), i.clone(), t.to_string(), format!("{c}/{i}/{t} again")));
            }
            m.repo.files.entry(h[w].clone()).or_default().patterns.push((c.clone(), i, t.to_string(), text));
        }
        // A language without strings.
        if langs.is_empty() || s.chance(1, 6) {
            langs.insert(*s.pick(&m.tags));
        }
        let langs: Vec<_> = langs.into_iter().collect();
        let default = s.pick(&langs).to_string();
        for (k, f) in h.iter().enumerate() {
            let db = m.repo.files.entry(f.clone()).or_default();
            // That of the all-in-one file counts.
            let other = if k == 1 && s.chance(1, 4) { s.pick(&langs).to_string() } else { default.clone() };
            db.components.push((c.clone(), other));
        }
        for t in &langs {
            let n = 1 + s.below(2) + if s.chance(1, 6) { s.below(5) } else { 0 };
            for k in 0..n {
                let name = if s.chance(1, 5) { text(s, 6) } else { s.pick(&["Ann", "Bob", "ann", "Ann ", "Zoë", "O'Hara"]).to_string() };
                let name = if k == 0 { "Ann".to_string() } else { name };
                let name = if k == 0 && s.chance(1, 2) { s.pick(&["Bob", "Eve", "Zoë"]).to_string() } else { name };
                // In either or both of the files.
                let w = s.below(h.len() + 1);
                for (x, f) in h.iter().enumerate() {
                    if w == h.len() || x == w {
                        let db = m.repo.files.get_mut(f).unwrap();
                        let row = (c.clone(), t.to_string(), name.clone());
                        if !db.contributors.contains(&row) {
                            db.contributors.push(row);
                        }
                    }
                }
            }
        }
    }
    // Rows of another component in a component's own file are not that component's.
    let own: Vec<String> = m.repo.files.keys().filter(|k| *k != AIO).cloned().collect();
    if !own.is_empty() && s.chance(1, 4) {
        let f = s.pick(&own).clone();
        let c = s.pick(&m.components).clone();
        let c = if s.bool() { c } else { "stranger".to_string() };
        if c != f {
            let db = m.repo.files.get_mut(&f).unwrap();
            if !db.components.iter().any(|x| x.0 == c) {
                let t = *s.pick(&m.tags);
                db.components.push((c.clone(), t.to_string()));
                db.contributors.push((c.clone(), t.to_string(), "Stranger".to_string()));
                for i in &m.ids {
                    db.patterns.push((c.clone(), i.clone(), t.to_string(), format!("strange {i}")));
                }
            }
        }
    }
    // The order of rows is arbitrary.
    for db in m.repo.files.values_mut() {
        s.shuffle(&mut db.patterns);
        s.shuffle(&mut db.contributors);
    }
    m
}

pub fn a_tag(s: &mut Source, m: &Made) -> String {
    let t = *s.pick(&m.tags);
    match s.weighted(&[6, 3, 3, 3]) {
        0 => t.to_string(),
        1 => {
            let parts: Vec<&str> = t.split('-').collect();
            let p = parts[..1 + s.below(parts.len())].join("-");
            // A prefix that ends within an extension may be no tag.
            if canonical(&p).as_ref() == Some(&p) { p } else { t.to_string() }
        }
        2 => {
            let id = without_extension(t);
            let fam = FAMILIES.iter().find(|f| f.contains(&id.as_str())).unwrap();
            s.pick(fam).to_string()
        }
        _ => {
            let fam = *s.pick(FAMILIES);
            s.pick(fam).to_string()
        }
    }
}

pub fn a_component(s: &mut Source, m: &Made) -> String {
    let c = s.pick(&m.components).clone();
    match s.weighted(&[24, 1, 1, 1, 1, 1]) {
        0 => c,
        1 => c.to_uppercase(),
        2 => AIO.to_string(),
        3 => "stranger".to_string(),
        4 => format!("{c}x"),
        _ => s.pick(&["%", "_", "", "application", "nowhere"]).to_string(),
    }
}

pub fn an_id(s: &mut Source, m: &Made) -> String {
    let i = s.pick(&m.ids).clone();
    match s.weighted(&[20, 1, 1, 1, 1]) {
        0 => i,
        1 => i.to_uppercase(),
        2 => i.to_lowercase(),
        3 => "missing".to_string(),
        _ => s.pick(&["%", "_", "", "id%"]).to_string(),
    }
}

pub fn open(dir: &Path, reg: &Rc<LanguageTagRegistry>) -> Result<LocalisationProviderSqlite3, String> {
    LocalisationProviderSqlite3::try_new(dir, reg, false).map_err(|e| format!("valid repository rejected: {e:?}"))
}

type Found = (String, Rc<LanguageTag>);

fn plain(x: &Found) -> (String, String) {
    (x.0.clone(), x.1.as_str().to_string())
}

fn names(e: &ProviderError, c: &str) -> bool {
    matches!(e, ProviderError::ComponentNotFound(x) if x == c)
}

/// Judges the answer to a request for one string; returns the class of the case.
pub fn judge_string(
    what: &str,
    repo: &SqlRepo,
    c: &str,
    i: &str,
    t: &str,
    got: &Result<Option<Found>, ProviderError>,
    reg: &LanguageTagRegistry,
) -> Result<&'static str, String> {
    match (repo.string(c, i, t), got) {
        (None, Err(e)) if names(e, c) => Ok("unknown component"),
        (Some(v), Ok(None)) if v.is_empty() => Ok("no string"),
        (Some(v), Ok(Some(f))) if v.contains(&plain(f)) => {
            // Tags of the registry are shared.
            if !Rc::ptr_eq(&f.1, &reg.tag(f.1.as_str()).unwrap()) {
                return Err(format!("{what}: the tag is not that of the registry"));
            }
            let f = f.1.as_str();
            Ok(if f == t {
                "exact tag"
            } else if t.starts_with(&format!("{f}-")) {
                "less specific tag"
            } else if f.starts_with(&format!("{t}-")) {
                "more specific tag"
            } else {
                "sibling tag"
            })
        }
        (e, g) => Err(format!("{what}: got {g:?}, acceptable {e:?}")),
    }
}

// ---------------------------------------------------------------- C20

fn c20(s: &mut Source, r: &mut Rec) -> CaseResult {
    sql::init();
    let m = sql_repo(s, 3, 10);
    let dir = scratch();
    m.repo.write(&dir);
    let reg = Rc::new(LanguageTagRegistry::new());
    let n = 4 + s.below(if s.exhausted() || m.tags.len() < 15 { 12 } else { 100 });
    let qs: Vec<(String, String, String)> = (0..n).map(|_| (a_component(s, &m), an_id(s, &m), a_tag(s, &m))).collect();
    r.case(format!("{} requests {qs:?}", m.repo.show()));
    let p = open(&dir, &reg)?;
    for (c, i, t) in &qs {
        if s.chance(1, 6) {
            // Other requests in between make no difference.
            let tag = reg.tag(t).unwrap();
            match s.below(3) {
                0 => drop(p.strings(c, i, &tag)),
                1 => drop(p.string_exact_match(c, i, &tag)),
                _ => drop(p.component_details(c)),
            }
        }
        let got = p.string(c, i, &reg.tag(t).unwrap());
        let class = judge_string(&format!("string({c:?},{i:?},{t})"), &m.repo, c, i, t, &got, &reg)?;
        r.class(class);
        if let Some(src) = m.repo.sources(c) {
            r.class_if(src.len() > 1, "component in both files");
            r.class_if(src.len() > 1 && class != "no string" && m.repo.string(c, i, t).unwrap().iter().all(|x| src[1].patterns.iter().any(|p| p.3 == x.0 && p.2 == x.1)), "from the second file");
        }
    }
    r.nontrivial = r.classes.iter().any(|c| ["less specific tag", "more specific tag", "sibling tag", "from the second file"].contains(c));
    Ok(())
}

// ---------------------------------------------------------------- C21

/// Exact, multiple and single requests of one string, in some order.
pub fn judge_requests(p: &LocalisationProviderSqlite3, repo: &SqlRepo, reg: &LanguageTagRegistry, (c, i, t): (&str, &str, &str), order: usize, r: &mut Rec) -> CaseResult {
    let tag = reg.tag(t).unwrap();
    let mut exact = None;
    let mut all = None;
    let mut single = None;
    const ORDERS: [[u8; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    for k in ORDERS[order % 6] {
        match k {
            0 => exact = Some(p.string_exact_match(c, i, &tag)),
            1 => all = Some(p.strings(c, i, &tag)),
            _ => single = Some(p.string(c, i, &tag)),
        }
    }
    let (exact, all, single) = (exact.unwrap(), all.unwrap(), single.unwrap());
    let what = format!("({c:?},{i:?},{t})");
    match (repo.exact(c, i, t), &exact) {
        (None, Err(e)) if names(e, c) => {}
        (Some(None), Ok(None)) => {
            r.class("no exact string");
        }
        (Some(Some(x)), Ok(Some(f))) if plain(f) == x => {
            r.class("exact string");
        }
        (e, g) => return Err(format!("string_exact_match{what}: got {g:?}, expected {e:?}")),
    }
    match (repo.strings(c, i, t), &all) {
        (None, Err(e)) if names(e, c) => {
            r.class("unknown component");
        }
        (Some(mut e), Ok(v)) => {
            let mut g: Vec<_> = v.iter().map(plain).collect();
            g.sort();
            e.sort();
            if g != e {
                return Err(format!("strings{what}: got {g:?}, expected {e:?}"));
            }
            r.class_if(e.len() > 1, "several strings");
            r.class_if(e.is_empty(), "no strings");
            r.class_if(e.len() > 1 && !e.iter().any(|x| x.1.starts_with(t)), "several strings of a shorter tag");
            match &single {
                Ok(None) if e.is_empty() => {}
                Ok(Some(f)) if e.contains(&plain(f)) => {}
                g => return Err(format!("string{what} gave {g:?}, strings {e:?}")),
            }
        }
        (e, g) => return Err(format!("strings{what}: got {g:?}, expected {e:?}")),
    }
    Ok(())
}

fn c21(s: &mut Source, r: &mut Rec) -> CaseResult {
    sql::init();
    let m = sql_repo(s, 3, 10);
    let dir = scratch();
    m.repo.write(&dir);
    let reg = Rc::new(LanguageTagRegistry::new());
    let n = 4 + s.below(if s.exhausted() || m.tags.len() < 15 { 12 } else { 100 });
    let qs: Vec<(String, String, String, usize)> = (0..n).map(|_| (a_component(s, &m), an_id(s, &m), a_tag(s, &m), s.below(6))).collect();
    r.case(format!("{} requests {qs:?}", m.repo.show()));
    let p = open(&dir, &reg)?;
    for (c, i, t, order) in &qs {
        judge_requests(&p, &m.repo, &reg, (c, i, t), *order, r)?;
    }
    r.nontrivial = r.classes.contains(&"several strings");
    Ok(())
}

// ---------------------------------------------------------------- C22

fn judge_data(what: &str, d: &LanguageData, count: usize, base: usize, contributors: &BTreeSet<String>) -> CaseResult {
    let ratio = if base == 0 { 0.0 } else { count as f64 / base as f64 };
    if d.count != count {
        return Err(format!("{what}: count {}, expected {count}", d.count));
    }
    if !((d.ratio as f64 - ratio).abs() <= 1e-6 * ratio.max(1.0)) {
        return Err(format!("{what}: ratio {}, expected {ratio}", d.ratio));
    }
    set_eq(&format!("{what} contributors"), d.contributors.iter().map(|x| x.as_str()), contributors)
}

fn set_eq<'a>(what: &str, got: impl Iterator<Item = &'a str>, expected: &BTreeSet<String>) -> CaseResult {
    let mut v: Vec<&str> = got.collect();
    v.sort();
    if !v.iter().copied().eq(expected.iter().map(|x| x.as_str())) {
        return Err(format!("{what}: {v:?}, expected {expected:?}"));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    MissingDefault,
    ForeignDefault,
}

fn faulty(repo: &SqlRepo) -> BTreeMap<String, Fault> {
    repo.components()
        .into_iter()
        .filter_map(|c| match repo.default_of(&c) {
            None => Some((c, Fault::MissingDefault)),
            Some(d) if !repo.languages(&c).contains(&d) => Some((c, Fault::ForeignDefault)),
            _ => None,
        })
        .collect()
}

fn names_fault(e: &ProviderError, f: &BTreeMap<String, Fault>) -> bool {
    match e {
        ProviderError::DefaultLanguage(c) => f.get(c) == Some(&Fault::MissingDefault),
        ProviderError::InvalidDefaultLanguage(c) => f.get(c) == Some(&Fault::ForeignDefault),
        _ => false,
    }
}

/// Judges one request for details of the component (and identifier), or of the repository.
pub fn judge_details(p: &LocalisationProviderSqlite3, repo: &SqlRepo, ask: &Ask) -> Result<&'static str, String> {
    // A string that is in both files may count once or twice.
    judge_counts(p, repo, ask, &|c, t| repo.count(c, t)).or_else(|e| match judge_counts(p, repo, ask, &|c, t| repo.distinct(c, t)) {
        Ok(x) => Ok(x),
        Err(_) => Err(e),
    })
}

fn judge_counts(p: &LocalisationProviderSqlite3, repo: &SqlRepo, ask: &Ask, counts: &dyn Fn(&str, &str) -> usize) -> Result<&'static str, String> {
    let what = format!("{ask:?}");
    let bad = faulty(repo);
    let healthy = |c: &str| repo.components().contains(c) && !bad.contains_key(c);
    match ask {
        Ask::Identifier(c, i) => match p.identifier_details(c, i) {
            Ok(d) => {
                if !healthy(c) {
                    return Err(format!("{what}: got {d:?} of an unknown or faulty component"));
                }
                if Some(d.default.as_str()) != repo.default_of(c).as_deref() {
                    return Err(format!("{what}: default {}", d.default.as_str()));
                }
                let e = repo.identifier_languages(c, i);
                set_eq(&what, d.languages.iter().map(|x| x.as_str()), &e)?;
                Ok(if e.is_empty() { "unknown identifier" } else { "identifier" })
            }
            Err(e) => detail_error(&what, repo, &bad, c, &e),
        },
        Ask::Component(c) => match p.component_details(c) {
            Ok(d) => {
                if !healthy(c) {
                    return Err(format!("{what}: got {d:?} of an unknown or faulty component"));
                }
                let def = repo.default_of(c).unwrap();
                if d.default.as_str() != def {
                    return Err(format!("{what}: default {}, expected {def}", d.default.as_str()));
                }
                let langs = repo.languages(c);
                set_eq(&what, d.languages.keys().map(|x| x.as_str()), &langs)?;
                let base = counts(c, &def);
                for (t, data) in &d.languages {
                    let t = t.as_str();
                    judge_data(&format!("{what} {t}"), data, counts(c, t), base, &repo.contributors(c, t))?;
                }
                let total: usize = langs.iter().map(|t| counts(c, t)).sum();
                if d.total_strings != total {
                    return Err(format!("{what}: total {}, expected {total}", d.total_strings));
                }
                Ok(if base == 0 { "component without strings of its default language" } else { "component" })
            }
            Err(e) => detail_error(&what, repo, &bad, c, &e),
        },
        Ask::Repository => match p.repository_details() {
            Ok(d) => {
                if !bad.is_empty() {
                    return Err(format!("{what}: got {d:?}, but components {bad:?} are faulty"));
                }
                let comps = repo.components();
                set_eq(&format!("{what} components"), d.components.iter().map(|x| x.as_str()), &comps)?;
                let def = if comps.contains("application") { repo.default_of("application") } else { None };
                if d.default.as_ref().map(|x| x.as_str()) != def.as_deref() {
                    return Err(format!("{what}: default {:?}, expected {def:?}", d.default));
                }
                let langs: BTreeSet<String> = comps.iter().flat_map(|c| repo.languages(c)).collect();
                set_eq(&what, d.languages.keys().map(|x| x.as_str()), &langs)?;
                let count = |t: &str| comps.iter().map(|c| counts(c, t)).sum::<usize>();
                let base = def.as_ref().map(|d| count(d)).unwrap_or(0);
                let mut everyone = BTreeSet::new();
                for (t, data) in &d.languages {
                    let t = t.as_str();
                    let con: BTreeSet<String> = comps.iter().flat_map(|c| repo.contributors(c, t)).collect();
                    judge_data(&format!("{what} {t}"), data, count(t), base, &con)?;
                    everyone.extend(con);
                }
                set_eq(&format!("{what} contributors"), d.contributors.iter().map(|x| x.as_str()), &everyone)?;
                let total: usize = langs.iter().map(|t| count(t)).sum();
                if d.total_strings != total {
                    return Err(format!("{what}: total {}, expected {total}", d.total_strings));
                }
                Ok(if def.is_some() { "repository with application" } else { "repository without application" })
            }
            Err(e) => {
                if names_fault(&e, &bad) {
                    Ok("faulty repository")
                } else {
                    Err(format!("{what}: {e:?}, faulty components {bad:?}"))
                }
            }
        },
    }
}

fn detail_error(what: &str, repo: &SqlRepo, bad: &BTreeMap<String, Fault>, c: &str, e: &ProviderError) -> Result<&'static str, String> {
    // With a faulty component elsewhere an error about it is acceptable, as the details are made all at once.
    if names_fault(e, bad) {
        return Ok("faulty component");
    }
    if names(e, c) && !repo.components().contains(c) {
        return Ok("unknown component");
    }
    Err(format!("{what}: {e:?}, faulty components {bad:?}"))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ask {
    Identifier(String, String),
    Component(String),
    Repository,
}

pub fn an_ask(s: &mut Source, m: &Made) -> Ask {
    match s.below(3) {
        0 => Ask::Component(a_component(s, m)),
        1 => Ask::Identifier(a_component(s, m), an_id(s, m)),
        _ => Ask::Repository,
    }
}

fn c22(s: &mut Source, r: &mut Rec) -> CaseResult {
    sql::init();
    let mut m = sql_repo(s, 4, 12);
    if s.chance(1, 7) {
        let c = s.pick(&m.components).clone();
        let missing = s.bool();
        for db in m.repo.files.values_mut() {
            if missing && !db.components.iter().any(|x| x.0 == c && db.patterns.is_empty()) {
                // Without the row the all-in-one file does not contain the component either.
                db.components.retain(|x| x.0 != c);
            } else {
                for x in &mut db.components {
                    if x.0 == c {
                        x.1 = "tlh".to_string();
                    }
                }
            }
        }
    }
    if m.repo.components().is_empty() {
        // Only an all-in-one file without components.
        r.case("no components".to_string());
        return Ok(());
    }
    let dir = scratch();
    m.repo.write(&dir);
    let reg = Rc::new(LanguageTagRegistry::new());
    let mut asks: Vec<Ask> = (0..2 + s.below(8)).map(|_| an_ask(s, &m)).collect();
    // Again, in another order.
    let mut again = asks.clone();
    s.shuffle(&mut again);
    asks.extend(again);
    r.case(format!("{} asks {asks:?}", m.repo.show()));
    let p = open(&dir, &reg)?;
    for a in &asks {
        if s.chance(1, 8) {
            drop(p.string(s.pick(&m.components), s.pick(&m.ids), &reg.tag(s.pick(&m.tags)).unwrap()));
        }
        r.class(judge_details(&p, &m.repo, a)?);
    }
    r.class_if(m.repo.components().iter().any(|c| m.repo.sources(c).unwrap().len() > 1), "component in both files");
    r.nontrivial = m.repo.components().len() > 1 && m.repo.components().iter().any(|c| m.repo.languages(c).len() > 1);
    Ok(())
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug)]
struct Col {
    name: String,
    ty: String,
    notnull: bool,
    /// position in the primary key
    pk: bool,
    default: Option<String>,
    /// UNIQUE, AUTOINCREMENT, REFERENCES
    extra: String,
}

#[derive(Clone, Debug)]
struct Table {
    name: String,
    cols: Vec<Col>,
    extra: String,
}

fn schema() -> Vec<Table> {
    TABLES
        .iter()
        .map(|(name, cols, extra)| Table {
            name: name.to_string(),
            cols: cols
                .iter()
                .map(|(n, d)| {
                    let ty = d.split(' ').next().unwrap();
                    let mut e = d[ty.len()..].replace("NOT NULL", "").replace("PRIMARY KEY", "").trim().to_string();
                    let pk = d.contains("PRIMARY KEY");
                    if pk {
                        e = String::new();
                    }
                    Col { name: n.to_string(), ty: ty.to_string(), notnull: d.contains("NOT NULL"), pk, default: None, extra: e }
                })
                .collect(),
            extra: extra.to_string(),
        })
        .collect()
}

fn table_sql(t: &Table) -> String {
    let pks: Vec<&Col> = t.cols.iter().filter(|c| c.pk).collect();
    let single = pks.len() == 1;
    let mut parts: Vec<String> = t
        .cols
        .iter()
        .map(|c| {
            let mut d = format!("\"{}\" {}", c.name, c.ty);
            if c.pk && single {
                d.push_str(" PRIMARY KEY");
                if c.ty == "INTEGER" && c.default.is_none() {
                    d.push_str(" AUTOINCREMENT");
                }
            }
            if c.notnull {
                d.push_str(" NOT NULL");
            }
            if let Some(v) = &c.default {
                d.push_str(&format!(" DEFAULT {v}"));
            }
            d + " " + &c.extra
        })
        .collect();
    if pks.len() > 1 {
        parts.push(format!("PRIMARY KEY ({})", pks.iter().map(|c| format!("\"{}\"", c.name)).collect::<Vec<_>>().join(", ")));
    }
    format!("CREATE TABLE \"{}\" ({}{})", t.name, parts.join(", "), t.extra)
}

#[derive(Clone, Debug, PartialEq)]
enum Break {
    DropTable(usize),
    RenameTable(usize),
    DropCol(usize, usize),
    RenameCol(usize, usize),
    InsertCol(usize, usize),
    SwapCol(usize, usize),
    Type(usize, usize, &'static str),
    NotNull(usize, usize),
    Key(usize, usize),
    Default(usize, usize, &'static str),
    Version(Option<&'static str>),
}

const DATA_TABLES: &[usize] = &[0, 1, 2, 3, 5];
const TYPES: &[&str] = &["TEXT", "INTEGER", "REAL", "DATE", "BLOB", "", "VARCHAR(20)", "NUMERIC"];
const DEFAULTS: &[&str] = &["0", "1", "1.5", "'x'", "''", "'2024-01-01'", "CURRENT_DATE", "(1 + 1)"];
const VERSIONS: &[Option<&str>] = &[None, Some(""), Some("1"), Some("1.1"), Some("2.0"), Some("1.00"), Some(" 1.0"), Some("1.0 "), Some("01.0"), Some("1,0"), Some("v1.0"), Some("10"), Some("0.1")];

fn breaks() -> &'static [Break] {
    static B: std::sync::OnceLock<Vec<Break>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let t = schema();
        let mut v = vec![];
        for i in 0..t.len() {
            v.push(Break::DropTable(i));
            v.push(Break::RenameTable(i));
        }
        for &i in DATA_TABLES {
            for (j, c) in t[i].cols.iter().enumerate() {
                v.push(Break::DropCol(i, j));
                v.push(Break::RenameCol(i, j));
                v.push(Break::InsertCol(i, j));
                if j + 1 < t[i].cols.len() {
                    v.push(Break::SwapCol(i, j));
                }
                for ty in TYPES {
                    if *ty != c.ty {
                        v.push(Break::Type(i, j, ty));
                    }
                }
                v.push(Break::NotNull(i, j));
                v.push(Break::Key(i, j));
                for d in DEFAULTS {
                    v.push(Break::Default(i, j, d));
                }
            }
        }
        for x in VERSIONS {
            v.push(Break::Version(*x));
        }
        v
    })
}

/// Applies a deviation and says what the error has to name: (table, columns), or the version.
fn apply(b: &Break, t: &mut Vec<Table>, version: &mut Option<&'static str>) -> (String, BTreeSet<String>) {
    let pos = |t: &Vec<Table>, i: usize| -> Option<usize> { t.iter().position(|x| x.name == TABLES[i].0) };
    let at = |t: &Vec<Table>, i: usize, j: usize| -> Option<(usize, usize)> {
        let k = pos(t, i)?;
        Some((k, t[k].cols.iter().position(|c| c.name == TABLES[i].1[j].0)?))
    };
    let named = |i: usize, js: &[usize]| (TABLES[i].0.to_string(), js.iter().map(|j| TABLES[i].1[*j].0.to_string()).collect());
    match b {
        Break::DropTable(i) => {
            if let Some(k) = pos(t, *i) {
                t.remove(k);
            }
            named(*i, &[])
        }
        Break::RenameTable(i) => {
            if let Some(k) = pos(t, *i) {
                t[k].name.push_str("_old");
            }
            named(*i, &[])
        }
        Break::DropCol(i, j) => {
            if let Some((k, c)) = at(t, *i, *j) {
                t[k].cols.remove(c);
                t[k].extra.clear();
            }
            named(*i, &[*j])
        }
        Break::RenameCol(i, j) => {
            if let Some((k, c)) = at(t, *i, *j) {
                t[k].cols[c].name.push('x');
                t[k].extra.clear();
            }
            named(*i, &[*j])
        }
        Break::InsertCol(i, j) => {
            if let Some((k, c)) = at(t, *i, *j) {
                t[k].cols.insert(c, Col { name: "additional".to_string(), ty: "TEXT".to_string(), notnull: false, pk: false, default: None, extra: String::new() });
            }
            // Everything from there on is displaced.
            (TABLES[*i].0.to_string(), (*j..TABLES[*i].1.len()).map(|j| TABLES[*i].1[j].0.to_string()).collect())
        }
        Break::SwapCol(i, j) => {
            if let Some((k, c)) = at(t, *i, *j) {
                if c + 1 < t[k].cols.len() {
                    t[k].cols.swap(c, c + 1);
                }
            }
            named(*i, &[*j, *j + 1])
        }
        Break::Type(i, j, ty) => {
            if let Some((k, c)) = at(t, *i, *j) {
                t[k].cols[c].ty = ty.to_string();
                // Only an INTEGER key can count.
            }
            named(*i, &[*j])
        }
        Break::NotNull(i, j) => {
            if let Some((k, c)) = at(t, *i, *j) {
                t[k].cols[c].notnull ^= true;
            }
            named(*i, &[*j])
        }
        Break::Key(i, j) => {
            if let Some((k, c)) = at(t, *i, *j) {
                t[k].cols[c].pk ^= true;
            }
            named(*i, &[*j])
        }
        Break::Default(i, j, d) => {
            if let Some((k, c)) = at(t, *i, *j) {
                t[k].cols[c].default = Some(d.to_string());
            }
            named(*i, &[*j])
        }
        Break::Version(v) => {
            *version = *v;
            ("version".to_string(), BTreeSet::new())
        }
    }
}

fn error_names(e: &SchemaError, expected: &[(String, BTreeSet<String>)]) -> bool {
    expected.iter().any(|(t, cols)| match e {
        SchemaError::MissingTable(x) => cols.is_empty() && x == t,
        SchemaError::MissingColumn(x, c) => x == t && cols.contains(c),
        SchemaError::ColumnProperty(x, c, _) => x == t && cols.contains(c),
        SchemaError::ColumnDefault(x, c, _) => x == t && cols.contains(c),
        SchemaError::ColumnMismatch(x, c) => x == t && cols.contains(c),
        SchemaError::Version(..) | SchemaError::MissingVersion(..) => t == "version",
        _ => false,
    })
}

/// The kind of error that belongs to a single deviation.
fn right_kind(e: &SchemaError, b: &Break) -> bool {
    let prop = |e: &SchemaError, p: &str| matches!(e, SchemaError::ColumnProperty(_, _, x) if x == p);
    match b {
        Break::DropTable(_) | Break::RenameTable(_) => matches!(e, SchemaError::MissingTable(_)),
        Break::DropCol(..) | Break::RenameCol(..) | Break::SwapCol(..) => matches!(e, SchemaError::MissingColumn(..)),
        Break::Type(i, j, _) => prop(e, TABLES[*i].1[*j].1.split(' ').next().unwrap()),
        Break::NotNull(..) => prop(e, "NOT NULL") || prop(e, "NULL"),
        Break::Key(..) => matches!(e, SchemaError::ColumnProperty(..)),
        Break::Default(..) => matches!(e, SchemaError::ColumnDefault(_, _, d) if d == "NULL"),
        _ => true,
    }
}

fn check_schema(s: &mut Source, r: &mut Rec, bs: &[Break]) -> CaseResult {
    sql::init();
    let mut tables = schema();
    let mut version: Option<&'static str> = Some("1.0");
    let mut expected = vec![];
    for b in bs {
        let e = apply(b, &mut tables, &mut version);
        // A displaced neighbour of several deviations counts for all columns of its table.
        expected.push(if bs.len() > 1 && !e.1.is_empty() {
            let all = TABLES.iter().find(|t| t.0 == e.0).unwrap().1.iter().map(|c| c.0.to_string()).collect();
            (e.0, all)
        } else {
            e
        });
    }
    // Additions that do not matter.
    let mut extra: Vec<String> = vec![];
    if s.chance(1, 3) {
        extra.push("CREATE TABLE other (a TEXT, b INTEGER NOT NULL DEFAULT 3)".to_string());
        r.class("additional table");
    }
    let mut additional = false;
    for t in &mut tables {
        if s.chance(1, 5) {
            let (ty, default) = *s.pick(&[("TEXT", None), ("INTEGER", Some("7")), ("", None), ("DATE", Some("'x'"))]);
            t.cols.push(Col { name: "appended".to_string(), ty: ty.to_string(), notnull: default.is_some(), pk: false, default: default.map(|x: &str| x.to_string()), extra: String::new() });
            additional = true;
        }
    }
    r.class_if(additional, "additional column");
    s.shuffle(&mut tables);
    if s.chance(1, 4) {
        if let Some(t) = tables.iter().find(|t| t.name == "pattern" && t.cols.iter().any(|c| c.name == "identifier")) {
            extra.push(format!("CREATE INDEX idx ON {} (identifier)", t.name));
            extra.push("CREATE VIEW v AS SELECT identifier FROM pattern".to_string());
        }
    }
    let sqls: Vec<String> = tables.iter().map(table_sql).chain(extra).collect();
    let in_aio = s.bool();
    let beside = s.bool();
    r.case(format!("deviations {bs:?}; version {version:?}; {}{}{}", sqls.join("; "), if in_aio { "; all-in-one" } else { "" }, if beside { "; beside a valid file" } else { "" }));
    let dir = scratch();
    let stem = if in_aio { AIO } else { "broken" };
    let path = dir.join(format!("{stem}.sqlite3"));
    {
        let c = Connection::open(&path).map_err(|e| e.to_string())?;
        c.execute_batch("PRAGMA synchronous = off; PRAGMA journal_mode = off; BEGIN").map_err(|e| e.to_string())?;
        for q in &sqls {
            c.execute_batch(q).map_err(|e| format!("harness: {q}: {e}"))?;
        }
        if let Some(m) = tables.iter().find(|t| t.name == "metadata") {
            let app = if m.cols.len() > 6 && m.cols[6].notnull { ", appended" } else { "" };
            let val = if app.is_empty() { "" } else { ", 1" };
            if let Some(v) = version {
                c.execute_batch(&format!("INSERT INTO metadata (component, key, value{app}) VALUES ('x', 'author', '1.0'{val}), ('x', 'schema_version', '{v}'{val}), ('x', 'Schema_Version', '3'{val})"))
                    .map_err(|e| format!("harness: {e}"))?;
            } else if s.bool() {
                c.execute_batch(&format!("INSERT INTO metadata (component, key, value{app}) VALUES ('x', 'version', '1.0'{val})")).map_err(|e| format!("harness: {e}"))?;
            }
        }
        if bs.is_empty() && !additional {
            let db = Db {
                components: vec![("x".to_string(), "en".to_string())],
                contributors: vec![("x".to_string(), "en".to_string(), text(s, 5))],
                patterns: (0..s.below(4)).map(|k| ("x".to_string(), format!("i{k}"), "en".to_string(), text(s, 8))).collect(),
            };
            c.execute_batch("COMMIT").map_err(|e| e.to_string())?;
            sql::fill(&c, &db, None).map_err(|e| format!("harness: {e}"))?;
        } else {
            c.execute_batch("COMMIT").map_err(|e| e.to_string())?;
        }
    }
    if beside {
        let db = Db { components: vec![("good".to_string(), "en".to_string())], ..Default::default() };
        sql::write_db(&dir.join("good.sqlite3"), &db);
    }
    let direct = {
        let c = Connection::open_with_flags(&path, rusqlite::OpenFlags::SQLITE_OPEN_READ_ONLY).map_err(|e| e.to_string())?;
        verify_schema(&c)
    };
    let reg = Rc::new(LanguageTagRegistry::new());
    let opened = LocalisationProviderSqlite3::try_new(dir.as_path(), &reg, false);
    if bs.is_empty() {
        r.class("valid");
        match direct {
            Ok(v) if v == "1.0" => {}
            other => return Err(format!("valid schema: verify_schema gave {other:?}")),
        }
        return match opened {
            Ok(_) => Ok(()),
            // An all-in-one file without components, and nothing else.
            Err(ProviderSqlite3Error::NoSqlite3Files(_)) if in_aio && !beside && additional => Ok(()),
            Err(e) => Err(format!("valid schema: repository rejected: {e:?}")),
        };
    }
    r.nontrivial = true;
    r.class(if bs.len() == 1 { "one deviation" } else { "several deviations" });
    let via = match opened {
        Ok(_) => return Err("deviating schema: repository accepted".to_string()),
        Err(ProviderSqlite3Error::SchemaInvalid(e)) => e,
        Err(e) => return Err(format!("deviating schema: repository gave {e:?}, expected a schema error naming {expected:?}")),
    };
    let direct = match direct {
        Ok(v) => return Err(format!("deviating schema verified as {v:?}")),
        Err(e) => e,
    };
    for (how, e) in [("verify_schema", &direct), ("repository", &via)] {
        if !error_names(e, &expected) {
            return Err(format!("{how}: error {e:?} names none of {expected:?}"));
        }
        if bs.len() == 1 && !right_kind(e, &bs[0]) {
            return Err(format!("{how}: error {e:?} for {:?}", bs[0]));
        }
        if let SchemaError::Version(p, v) = e {
            if v != "1.0" || !p.ends_with(&format!("{stem}.sqlite3")) {
                return Err(format!("{how}: error {e:?} does not name the file and the supported version"));
            }
        }
    }
    Ok(())
}

fn c23(s: &mut Source, r: &mut Rec) -> CaseResult {
    let all = breaks();
    let n = s.weighted(&[2, 4, 3, 1]);
    let mut bs: Vec<Break> = vec![];
    let mut cols = HashSet::new();
    for _ in 0..n {
        let b = s.pick(all).clone();
        // Deviations of the same column or table could undo one another.
        let key = match &b {
            Break::DropTable(i) | Break::RenameTable(i) => *i,
            Break::DropCol(i, _)
            | Break::RenameCol(i, _)
            | Break::InsertCol(i, _)
            | Break::SwapCol(i, _)
            | Break::Type(i, _, _)
            | Break::NotNull(i, _)
            | Break::Key(i, _)
            | Break::Default(i, _, _) => *i,
            Break::Version(_) => 99,
        };
        if cols.insert(key) {
            bs.push(b);
        }
    }
    check_schema(s, r, &bs)
}

fn c23_fixed(i: usize, r: &mut Rec) -> CaseResult {
    let all = breaks();
    // Every single deviation in four surroundings.
    let tape = [[0u32; 40], [u32::MAX; 40]];
    let mut mixed = [0u32; 40];
    for (k, x) in mixed.iter_mut().enumerate() {
        *x = (k as u32 + 1).wrapping_mul(0x9E37_79B9) ^ (i as u32).wrapping_mul(0x85EB_CA6B);
    }
    let t: &[u32] = match i % 3 {
        0 => &tape[0],
        1 => &tape[1],
        _ => &mixed,
    };
    let mut s = Source::new(t);
    check_schema(&mut s, r, &all[i / 3..i / 3 + 1])
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug)]
enum Damage {
    Truncate(usize),
    Flip(Vec<(usize, u8)>),
    Replace(Vec<u8>),
    Remove,
    /// Removed and another file put in its place.
    Swap(Vec<u8>),
    Append(Vec<u8>),
}

fn damage_name(d: &Damage) -> String {
    match d {
        Damage::Truncate(n) => format!("truncate to {n}"),
        Damage::Flip(v) => format!("overwrite {v:?}"),
        Damage::Replace(b) => format!("contents {} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(16)])),
        Damage::Remove => "remove".to_string(),
        Damage::Swap(b) => format!("swap for {} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(16)])),
        Damage::Append(b) => format!("append {} bytes", b.len()),
    }
}

fn garbage(s: &mut Source, like: &[u8]) -> Vec<u8> {
    match s.below(6) {
        0 => vec![],
        1 => b"SQLite format 3\0".to_vec(),
        2 => text(s, 20).into_bytes(),
        3 => {
            let mut v = like[..like.len().min(100)].to_vec();
            v.extend((0..s.below(64)).map(|k| (k * 37) as u8));
            v
        }
        4 => (0..s.below(5000)).map(|k| (k as u32).wrapping_mul(2_654_435_761).to_le_bytes()[3]).collect(),
        _ => {
            let mut v = like.to_vec();
            v.truncate(512 * (1 + s.below(40)));
            v
        }
    }
}

fn a_damage(s: &mut Source, bytes: &[u8]) -> Damage {
    let len = bytes.len();
    let pos = |s: &mut Source| loop {
        let p = match s.weighted(&[3, 3, 2]) {
            0 => s.below(len),
            1 => s.below(len.min(120)),
            _ => (s.below(len / 4096 + 1) * 4096 + s.below(24)).min(len - 1),
        };
        // The file format version bytes would turn on write-ahead logging, which works with additional files.
        if p != 18 && p != 19 {
            return p;
        }
        if s.exhausted() {
            return 20;
        }
    };
    match s.weighted(&[4, 6, 2, 1, 1, 1]) {
        0 => {
            let p = if s.bool() { pos(s) } else { (s.below(len / 512 + 1) * 512).min(len) };
            Damage::Truncate(p)
        }
        1 => {
            let n = match s.below(3) {
                0 => 1,
                1 => 1 + s.below(4),
                _ => 1 + s.below(40),
            };
            Damage::Flip((0..n).map(|_| (pos(s), *s.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xff, 0x0d, 0x05, b'-', b'x']))).collect())
        }
        2 => Damage::Replace(garbage(s, bytes)),
        3 => Damage::Remove,
        4 => Damage::Swap(garbage(s, bytes)),
        _ => Damage::Append((0..1 + s.below(5000)).map(|k| k as u8).collect()),
    }
}

fn do_damage(p: &Path, d: &Damage) {
    use std::io::{Seek, SeekFrom, Write};
    let file = || std::fs::OpenOptions::new().write(true).open(p);
    match d {
        Damage::Truncate(n) => {
            if let Ok(f) = file() {
                let _ = f.set_len(*n as u64);
            }
        }
        Damage::Flip(v) => {
            if let Ok(mut f) = file() {
                for (o, b) in v {
                    let _ = f.seek(SeekFrom::Start(*o as u64));
                    let _ = f.write_all(&[*b]);
                }
            }
        }
        Damage::Replace(b) => {
            let _ = std::fs::write(p, b);
        }
        Damage::Remove => {
            let _ = std::fs::remove_file(p);
        }
        Damage::Swap(b) => {
            let _ = std::fs::remove_file(p);
            let _ = std::fs::write(p, b);
        }
        Damage::Append(b) => {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(p) {
                let _ = f.write_all(b);
            }
        }
    }
}

/// Rows whose values have another type or are malformed; returns the statement.
fn bad_row(s: &mut Source, m: &Made) -> String {
    let c = m.components[0].replace('\'', "''");
    let i = m.ids[0].replace('\'', "''");
    let value = s
        .pick(&["X'ff00'", "CAST(X'ff' AS TEXT)", "'not a tag!'", "''", "'e'", "'en_US_POSIX_x'", "'x-private'", "'EN-us'", "12", "'toolonglanguage'", "CAST(X'656eff' AS TEXT)"])
        .to_string();
    match s.below(7) {
        0 => format!("UPDATE pattern SET languageTag = {value} WHERE rowID = (SELECT min(rowID) FROM pattern)"),
        1 => format!("UPDATE pattern SET string = {value} WHERE rowID = (SELECT max(rowID) FROM pattern)"),
        2 => format!("UPDATE contributor SET languageTag = {value} WHERE rowID = (SELECT min(rowID) FROM contributor)"),
        3 => format!("UPDATE contributor SET contributor = {value} WHERE rowID = (SELECT max(rowID) FROM contributor)"),
        4 => format!("UPDATE component SET languageTag = {value} WHERE rowID = 1"),
        5 => format!("INSERT INTO pattern (component, identifier, languageTag, string) VALUES ('{c}', '{i}', {value}, 'x')"),
        _ => format!("UPDATE component SET identifier = {value} WHERE rowID = 1"),
    }
}

fn c24(s: &mut Source, r: &mut Rec) -> CaseResult {
    sql::init();
    let m = sql_repo(s, 3, 8);
    let base = scratch();
    let reg = Rc::new(LanguageTagRegistry::new());
    let odd_dir = s.chance(1, 10);
    let dir = if odd_dir { base.join(PathBuf::from(std::ffi::OsString::from_vec(b"l10n\xff\xfe".to_vec()))) } else { base.join("l10n") };
    let mut log = String::new();
    // Places that are no repository at all.
    if s.chance(1, 12) {
        let kind = s.below(5);
        match kind {
            0 => {}
            1 => std::fs::write(&dir, b"file").unwrap(),
            2 => std::fs::create_dir(&dir).unwrap(),
            3 => {
                std::fs::create_dir(&dir).unwrap();
                std::fs::write(dir.join("readme.txt"), b"x").unwrap();
                std::fs::write(dir.join("sqlite3"), b"x").unwrap();
                std::fs::write(dir.join(".sqlite3"), b"x").unwrap();
                std::fs::write(dir.join("a.sqlite"), b"x").unwrap();
            }
            _ => {
                std::fs::create_dir(&dir).unwrap();
                std::fs::create_dir(dir.join("a.sqlite3")).unwrap();
                let _ = std::os::unix::fs::symlink("/nonexistent/x", dir.join("b.sqlite3"));
            }
        }
        r.case(format!("no repository, kind {kind}"));
        r.class("no repository");
        let before = sql::snapshot(&base);
        let got = no_panic("opening", || LocalisationProviderSqlite3::try_new(dir.as_path(), &reg, false).map(|_| ()))?;
        let ok = match (&got, kind) {
            (Err(ProviderSqlite3Error::NotDirectory(p) | ProviderSqlite3Error::NotExists(p)), 0) => *p == dir,
            (Err(ProviderSqlite3Error::NotDirectory(p)), 1) => *p == dir,
            (Err(ProviderSqlite3Error::NoSqlite3Files(p)), 2 | 3 | 4) => *p == dir,
            _ => false,
        };
        if !ok {
            return Err(format!("opening gave {got:?}"));
        }
        if sql::snapshot(&base) != before {
            return Err("opening changed the directory".to_string());
        }
        return Ok(());
    }
    std::fs::create_dir(&dir).unwrap();
    m.repo.write(&dir);
    let stems: Vec<String> = m.repo.files.keys().cloned().collect();
    let file = |stem: &str| dir.join(format!("{stem}.sqlite3"));
    // Components whose data may be anything.
    let mut hurt: HashSet<String> = HashSet::new();
    let mut all_hurt = false;
    let hurts = |stem: &str, hurt: &mut HashSet<String>, all: &mut bool| {
        if stem == AIO {
            // Its rows could now claim to be about any component.
            *all = true;
        } else {
            hurt.insert(stem.to_string());
        }
    };
    // Things beside the databases.
    let mut harmless = true;
    while s.chance(1, 3) {
        let k = s.below(8);
        let name = format!("beside {k}; ");
        if log.contains(&name) {
            break;
        }
        log.push_str(&name);
        // Other files and directories are ignored.
        harmless &= [0, 2, 5, 6, 7].contains(&k);
        match k {
            0 => std::fs::create_dir(dir.join("sub.sqlite3")).unwrap(),
            1 => std::fs::write(dir.join(std::ffi::OsString::from_vec(b"bad\xff.sqlite3".to_vec())), b"junk").unwrap(),
            2 => std::fs::write(dir.join("notes.SQLITE3"), b"junk").unwrap(),
            3 => std::os::unix::fs::symlink(dir.join("gone"), dir.join("link.sqlite3")).unwrap(),
            4 => {
                let st = s.pick(&stems).clone();
                std::fs::write(dir.join(format!("{st}.sqlite3-journal")), garbage(s, b"")).unwrap();
                hurts(&st, &mut hurt, &mut all_hurt);
            }
            5 => {
                std::fs::create_dir(dir.join("deeper")).unwrap();
                std::fs::write(dir.join("deeper").join("c.sqlite3"), b"junk").unwrap();
            }
            6 => std::fs::write(dir.join(".sqlite3"), b"junk").unwrap(),
            _ => {
                let near = ["x.sqlite3.bak", "x.sqlite3~", "x.sqlite30", "x.sqlite", "sqlite3", "x.sqlite3 ", "x.sqlite3-old", "x.db", "README", "x.Sqlite3", "xsqlite3"];
                std::fs::write(dir.join(s.pick(&near)), b"junk").unwrap();
            }
        }
    }
    if s.chance(1, 3) {
        harmless = false;
        let st = s.pick(&stems).clone();
        let q = bad_row(s, &m);
        log.push_str(&format!("in {st}: {q}; "));
        let c = Connection::open(file(&st)).map_err(|e| e.to_string())?;
        let _ = c.execute_batch("PRAGMA foreign_keys = off; PRAGMA synchronous = off; PRAGMA journal_mode = off");
        let _ = c.execute_batch(&q);
        hurts(&st, &mut hurt, &mut all_hurt);
        r.class("malformed row");
    }
    if s.chance(1, 2) {
        harmless = false;
        let st = s.pick(&stems).clone();
        let bytes = std::fs::read(file(&st)).unwrap();
        let d = a_damage(s, &bytes);
        log.push_str(&format!("before opening {st}: {}; ", damage_name(&d)));
        do_damage(&file(&st), &d);
        hurts(&st, &mut hurt, &mut all_hurt);
        r.class("damaged before opening");
    }
    if s.chance(1, 8) {
        harmless = false;
        // A whole file of rubbish that was never a database.
        let b = garbage(s, b"x");
        log.push_str(&format!("rubbish.sqlite3 {} bytes; ", b.len()));
        std::fs::write(dir.join("rubbish.sqlite3"), b).unwrap();
    }
    r.case(format!("{} {log}", m.repo.show()));
    let before = sql::snapshot(&base);
    let opened = no_panic("opening", || LocalisationProviderSqlite3::try_new(dir.as_path(), &reg, false));
    if sql::snapshot(&base) != before {
        return Err("opening changed the directory".to_string());
    }
    let p = match opened? {
        Ok(p) => p,
        Err(e) => {
            r.class("opening failed");
            if harmless {
                return Err(format!("undamaged repository rejected: {e:?}"));
            }
            // The error can be shown.
            no_panic("display of the error", || format!("{e} {e:?}"))?;
            r.nontrivial = true;
            return Ok(());
        }
    };
    let steps = 2 + s.below(8);
    let mut after = false;
    for _ in 0..steps {
        if s.chance(1, 5) {
            let st = s.pick(&stems).clone();
            let d = if s.chance(1, 8) {
                log.push_str("remove the directory; ");
                let _ = std::fs::remove_dir_all(&dir);
                all_hurt = true;
                None
            } else {
                match std::fs::read(file(&st)) {
                    Ok(b) if b.len() > 100 => Some(a_damage(s, &b)),
                    _ => None,
                }
            };
            if let Some(d) = d {
                log.push_str(&format!("then {st}: {}; ", damage_name(&d)));
                do_damage(&file(&st), &d);
                hurts(&st, &mut hurt, &mut all_hurt);
            }
            after = true;
            r.class("damaged after opening");
        }
        let c = a_component(s, &m);
        let i = an_id(s, &m);
        let t = a_tag(s, &m);
        let tag = reg.tag(&t).unwrap();
        let sound = !all_hurt && !hurt.contains(&c) && m.repo.sources(&c).is_some();
        let k = s.below(6);
        log.push_str(&format!("request {k} ({c:?},{i:?},{t}); "));
        r.case(format!("{} {log}", m.repo.show()));
        let before = sql::snapshot(&base);
        let res = no_panic("a request", || -> CaseResult {
            match k {
                0 | 1 => {
                    let got = p.string(&c, &i, &tag);
                    if sound {
                        judge_string("undamaged component", &m.repo, &c, &i, &t, &got, &reg)?;
                    }
                    if let Err(e) = got {
                        let _ = format!("{e} {e:?}");
                    }
                }
                2 => {
                    let got = p.string_exact_match(&c, &i, &tag);
                    if sound {
                        match (&got, m.repo.exact(&c, &i, &t).unwrap()) {
                            (Ok(None), None) => {}
                            (Ok(Some(f)), Some(e)) if plain(f) == e => {}
                            (g, e) => return Err(format!("undamaged component: exact {g:?}, expected {e:?}")),
                        }
                    }
                }
                3 => {
                    let got = p.strings(&c, &i, &tag);
                    if sound {
                        let mut e = m.repo.strings(&c, &i, &t).unwrap();
                        e.sort();
                        match &got {
                            Ok(v) => {
                                let mut v: Vec<_> = v.iter().map(plain).collect();
                                v.sort();
                                if v != e {
                                    return Err(format!("undamaged component: strings {v:?}, expected {e:?}"));
                                }
                            }
                            Err(x) => return Err(format!("undamaged component: {x:?}, expected {e:?}")),
                        }
                    }
                }
                4 => {
                    // Details are collected for all components at once, so damage elsewhere may make them fail.
                    for a in [Ask::Component(c.clone()), Ask::Identifier(c.clone(), i.clone())] {
                        let fails = match &a {
                            Ask::Component(c) => p.component_details(c).is_err(),
                            _ => p.identifier_details(&c, &i).is_err(),
                        };
                        if sound && !(fails && !hurt.is_empty()) {
                            judge_details(&p, &m.repo, &a).map_err(|e| format!("undamaged component: {e}"))?;
                        }
                    }
                }
                _ => {
                    let _ = p.repository_details();
                    if sound && hurt.is_empty() {
                        judge_details(&p, &m.repo, &Ask::Repository).map_err(|e| format!("undamaged repository: {e}"))?;
                    }
                }
            }
            Ok(())
        });
        res??;
        r.class_if(sound && !hurt.is_empty(), "undamaged component beside damage");
        if sql::snapshot(&base) != before {
            return Err("a request changed the directory".to_string());
        }
    }
    drop(p);
    r.nontrivial = after || r.classes.contains(&"damaged before opening") || r.classes.contains(&"malformed row");
    Ok(())
}

// ---------------------------------------------------------------- C28

/// Acceptable outcomes of a request.
#[derive(Debug)]
enum Expected {
    NoComponent,
    NotFound(bool),
    Any(Vec<(String, String)>),
}

fn end_lookup(repo: &SqlRepo, c: &str, i: &str, tag: &str, fallback: bool) -> Expected {
    match repo.string(c, i, tag) {
        None => Expected::NoComponent,
        Some(v) if !v.is_empty() => Expected::Any(v),
        Some(_) if !fallback => Expected::NotFound(false),
        Some(_) => match repo.string(c, i, &repo.default_of(c).unwrap()) {
            Some(v) if !v.is_empty() => Expected::Any(v),
            _ => Expected::NotFound(true),
        },
    }
}

/// Performs the operations on a localiser over the repository and judges each answer.
pub fn drive(l: &Localiser, reg: &Rc<LanguageTagRegistry>, w: &World, repo: &SqlRepo, d: &mut Defaults, ops: &[Op], r: &mut Rec) -> CaseResult {
    // Stored strings (identifier and language) that may be cached as patterns.
    let mut formatted: HashSet<(usize, String)> = HashSet::new();
    for (n, o) in ops.iter().enumerate() {
        let q = match o {
            Op::Defaults(t, f, c) => {
                let tag = t.as_ref().map(|t| reg.tag(t).unwrap());
                l.defaults(tag, *f, *c).map_err(|e| format!("defaults: {e:?}"))?;
                d.apply(t, f, c);
                continue;
            }
            Op::Req(q) => q,
        };
        let (tag, fallback, caching) = d.of(q);
        let (c, i) = &w.ids[q.id];
        let got = world::ask(l, reg, w, q);
        let values = match &q.kind {
            ReqKind::Format(v) | ReqKind::Data(Some(v)) => Some(v),
            _ => None,
        };
        let stored: Vec<(usize, String)> = match end_lookup(repo, c, i, &tag, fallback) {
            Expected::Any(v) => v.into_iter().map(|x| (q.id, x.1)).collect(),
            _ => vec![],
        };
        if values.is_none() && stored.iter().any(|x| formatted.contains(x)) && matches!(got, Err(LocaliserError::CacheEntry(..))) {
            continue;
        }
        if caching && values.is_some() {
            formatted.extend(stored);
        }
        let what = format!("request {n} ({})", o.show(w));
        let shown = got.as_ref().map(|x| (x.0.to_string(), x.1.as_str().to_string())).map_err(|e| format!("{e:?}"));
        match end_lookup(repo, c, i, &tag, fallback) {
            Expected::NoComponent => match &got {
                Err(e) if is_no_component(e, c) => r.class("unknown component"),
                _ => return Err(format!("{what}: unknown component, got {shown:?}")),
            },
            Expected::NotFound(f) => match &got {
                Err(e) if is_not_found(e, c, i, &tag, f) => r.class("not found"),
                _ => return Err(format!("{what}: no string (fallback used {f}), got {shown:?}")),
            },
            Expected::Any(v) => {
                let mut reasons = vec![];
                let mut ok = false;
                for (string, stag) in &v {
                    if let Ok((_, t)) = &shown {
                        if t != stag {
                            reasons.push(format!("tag {t}, not {stag}"));
                            continue;
                        }
                    }
                    let e = match values {
                        None => (Out::Text(string.clone()), false),
                        Some(v) => expect(stag, string, v),
                    };
                    match compare(&what, &e, &shown.clone().map(|x| x.0)) {
                        Ok(()) => ok = true,
                        Err(m) => reasons.push(m),
                    }
                    if matches!(e.0, Out::Text(_)) {
                        r.class("text");
                    }
                    r.class_if(matches!(e.0, Out::Text(_)) && string.contains('{'), "pattern text");
                    r.class_if(matches!(e.0, Out::Err(_)), "unsuitable pattern or value");
                    r.class_if(*stag != tag, "other language");
                }
                if !ok {
                    return Err(format!("{what}: {}", reasons.join("; ")));
                }
                if matches!(got, Err(LocaliserError::StringNotFound(..) | LocaliserError::Provider(_))) {
                    return Err(format!("{what}: the string exists, got {shown:?}"));
                }
            }
        }
    }
    Ok(())
}

/// The strings of a world, spread over the files of a repository.
pub fn world_repo(s: &mut Source, w: &World) -> SqlRepo {
    let mut repo = SqlRepo::default();
    for (c, comp) in &w.repo.components {
        let h = homes(s, c);
        let langs: Vec<&String> = comp.strings.values().flat_map(|m| m.keys()).collect();
        for (k, f) in h.iter().enumerate() {
            // That of the all-in-one file counts.
            let default = if k == 1 && !langs.is_empty() && s.chance(1, 3) { s.pick(&langs).to_string() } else { comp.default.clone() };
            repo.files.entry(f.clone()).or_default().components.push((c.clone(), default));
        }
        let mut tags: BTreeSet<String> = [comp.default.clone()].into();
        for (i, m) in &comp.strings {
            for (t, string) in m {
                tags.insert(t.clone());
                let k = s.below(h.len());
                repo.files.get_mut(&h[k]).unwrap().patterns.push((c.clone(), i.clone(), t.clone(), string.clone()));
                if h.len() > 1 && s.chance(1, 5) {
                    // The other file has another string.
                    repo.files.get_mut(&h[1 - k]).unwrap().patterns.push((c.clone(), i.clone(), t.clone(), format!("again {string}")));
                }
            }
        }
        for t in tags {
            let k = s.below(h.len());
            repo.files.get_mut(&h[k]).unwrap().contributors.push((c.clone(), t, "Ann".to_string()));
        }
    }
    repo
}

fn c28(s: &mut Source, r: &mut Rec) -> CaseResult {
    sql::init();
    let reg = Rc::new(LanguageTagRegistry::new());
    let large = s.long(120);
    r.class_if(large, "large repository, long history");
    let w = world::world(s, &reg, &Shape { components: 2, identifiers: 2, odd: 1, faults: 1, large, ..Default::default() });
    let repo = world_repo(s, &w);
    let mut d = Defaults { tag: w.tag(s), fallback: s.bool(), caching: !s.chance(1, 3) };
    let ops = super::localise::history(s, &w, if large { 300 } else { 8 });
    r.case(format!("{} start {d:?}: {}", repo.show(), ops.iter().map(|o| o.show(&w)).collect::<Vec<_>>().join("; ")));
    let dir = scratch();
    repo.write(&dir);
    let l = Localiser::try_new(&icu(), &reg, Box::new(open(&dir, &reg)?), &mem::commands(), d.fallback, d.caching, &d.tag).map_err(|e| format!("localiser: {e:?}"))?;
    drive(&l, &reg, &w, &repo, &mut d, &ops, r)?;
    r.nontrivial = r.classes.contains(&"pattern text");
    Ok(())
}

// ----------------------------------------------------------------

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C20",
        rule: "random repositories (all-in-one, component files, both; tags that share subtags or mere text; names that differ in case or contain _; decoy rows of other components; some with 15 components, 60 identifiers, 150 strings and 100 requests) and random requests, compared with the reference search. Non-trivial: a string of another tag or from the second file was used.",
        tape: 1500,
        quick: 5_000,
        thorough: 60_000,
        level: "exploration",
        assumptions: &["Sqlite works", "stored tags are canonical"],
        run: c20,
        fixed: None,
    },
    Prop {
        id: "C21",
        rule: "as C20, with exact, multiple and single requests in all orders. Non-trivial: a request with several strings.",
        tape: 1500,
        quick: 5_000,
        thorough: 60_000,
        level: "exploration",
        assumptions: &["Sqlite works", "stored tags are canonical"],
        run: c21,
        fixed: None,
    },
    Prop {
        id: "C22",
        rule: "random repositories as C20, also with missing or foreign default languages, and random sequences of detail requests, each repeated in another order, compared with sums and sets over the description. Non-trivial: several components and a component with several languages.",
        tape: 1800,
        quick: 5_000,
        thorough: 60_000,
        level: "exploration",
        assumptions: &["Sqlite works", "a language with strings has a contributor"],
        run: c22,
        fixed: None,
    },
    Prop {
        id: "C23",
        rule: "databases with 0 to 3 deviations from the documented schema (table or column missing, renamed, inserted, swapped; type, nullability, key, default; version), with appended columns, tables, views and indexes, in the all-in-one or a component file, beside a valid file or alone; fixed part: every single deviation of the enumeration in three surroundings. Non-trivial: at least one deviation.",
        tape: 120,
        quick: 4_000,
        thorough: 40_000,
        level: "exploration",
        assumptions: &["Sqlite works"],
        run: c23,
        fixed: Some((|| breaks().len() * 3, c23_fixed)),
    },
    Prop {
        id: "C24",
        rule: "random repositories with damage (truncation, overwritten bytes, foreign contents, removal, replacement, malformed rows, odd names, journals, directories, links) before and after opening and random requests, supervised for panic, abort, hang and memory; the directory is compared byte by byte around every call. Non-trivial: some damage.",
        tape: 1600,
        quick: 4_500,
        thorough: 60_000,
        level: "exploration",
        assumptions: &["databases do not use write-ahead logging", "Sqlite itself survives damaged files"],
        run: c24,
        fixed: None,
    },
    Prop {
        id: "C28",
        rule: "random repositories of pattern strings in Sqlite files, random request histories with defaults, fallback and caching, compared with reference search and reference evaluator. Non-trivial: text of a string with a pattern.",
        tape: 3600,
        quick: 6_000,
        thorough: 60_000,
        level: "exploration",
        assumptions: &["Sqlite works", "ICU formats numbers, dates and plurals correctly"],
        run: c28,
        fixed: None,
    },
];
