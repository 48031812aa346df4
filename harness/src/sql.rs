//! Sqlite3 repositories: description, writing to a directory, and the reference search over the description.
use rusqlite::{params, Connection};
use std::cell::OnceCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub const AIO: &str = "__all_in_one__";
pub const SCHEMA: &str = "/repo/crates/provider/sqlite3/l10n/schema.sql";

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Db {
    /// (identifier, default tag)
    pub components: Vec<(String, String)>,
    /// (component, tag, name)
    pub contributors: Vec<(String, String, String)>,
    /// (component, identifier, tag, string)
    pub patterns: Vec<(String, String, String, String)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct SqlRepo {
    /// file stem -> contents
    pub files: BTreeMap<String, Db>,
}

thread_local! {
    static TEMPLATE: OnceCell<Vec<u8>> = const { OnceCell::new() };
}

/// The documented schema, written out here as in the documentation of the provider crate.
pub const TABLES: &[(&str, &[(&str, &str)], &str)] = &[
    (
        "component",
        &[
            ("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"),
            ("identifier", "TEXT UNIQUE NOT NULL"),
            ("languageTag", "TEXT REFERENCES language (tag) NOT NULL"),
            ("comment", "TEXT"),
            ("added", "DATE NOT NULL"),
        ],
        "",
    ),
    (
        "contributor",
        &[
            ("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"),
            ("component", "TEXT NOT NULL"),
            ("languageTag", "TEXT NOT NULL"),
            ("contributor", "TEXT NOT NULL"),
            ("substituteFor", "TEXT"),
            ("comment", "TEXT"),
            ("verified", "DATE"),
        ],
        ", UNIQUE (component, languageTag, contributor)",
    ),
    (
        "language",
        &[
            ("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"),
            ("tag", "TEXT UNIQUE NOT NULL"),
            ("englishName", "TEXT"),
            ("added", "DATE NOT NULL"),
        ],
        "",
    ),
    (
        "languageData",
        &[
            ("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"),
            ("component", "TEXT NOT NULL"),
            ("languageTag", "TEXT NOT NULL"),
            ("count", "INTEGER NOT NULL"),
            ("ratio", "REAL NOT NULL"),
        ],
        ", UNIQUE (component, languageTag)",
    ),
    (
        "metadata",
        &[
            ("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"),
            ("component", "TEXT NOT NULL"),
            ("key", "TEXT NOT NULL"),
            ("value", "TEXT NOT NULL"),
            ("comment", "TEXT"),
            ("verified", "DATE"),
        ],
        ", UNIQUE (component, key)",
    ),
    (
        "pattern",
        &[
            ("rowID", "INTEGER PRIMARY KEY AUTOINCREMENT NOT NULL"),
            ("component", "TEXT NOT NULL"),
            ("identifier", "TEXT NOT NULL"),
            ("languageTag", "TEXT NOT NULL"),
            ("string", "TEXT NOT NULL"),
            ("comment", "TEXT"),
            ("verified", "DATE"),
        ],
        ", CONSTRAINT u_IdentierLanguage UNIQUE (component, identifier, languageTag)",
    ),
];

pub fn create_sql() -> String {
    TABLES
        .iter()
        .map(|(t, cols, extra)| {
            let c: Vec<String> = cols.iter().map(|(n, d)| format!("{n} {d}")).collect();
            format!("CREATE TABLE {t} ({}{extra});\n", c.join(", "))
        })
        .collect()
}

/// An empty database of the shipped schema file.
fn template() -> Vec<u8> {
    TEMPLATE.with(|t| {
        t.get_or_init(|| {
            let dir = crate::gen::scratch();
            let p = dir.join("template.db");
            let c = Connection::open(&p).expect("template");
            let sql = std::fs::read_to_string(SCHEMA).expect("schema file");
            c.execute_batch(&sql).expect("schema");
            drop(c);
            let b = std::fs::read(&p).expect("template");
            std::fs::remove_file(&p).expect("template");
            b
        })
        .clone()
    })
}

pub fn init() {
    template();
}

pub fn fill(c: &Connection, db: &Db, version: Option<&str>) -> rusqlite::Result<()> {
    c.execute_batch("PRAGMA foreign_keys = off; PRAGMA synchronous = off; PRAGMA journal_mode = off; BEGIN")?;
    let mut tags: BTreeSet<&str> = BTreeSet::new();
    for (i, t) in &db.components {
        tags.insert(t);
        c.execute("INSERT INTO component (identifier, languageTag, comment, added) VALUES (?1, ?2, 'c', '2024-11-14')", params![i, t])?;
    }
    for (co, t, n) in &db.contributors {
        tags.insert(t);
        c.execute("INSERT INTO contributor (component, languageTag, contributor) VALUES (?1, ?2, ?3)", params![co, t, n])?;
    }
    for (co, i, t, s) in &db.patterns {
        tags.insert(t);
        c.execute("INSERT INTO pattern (component, identifier, languageTag, string) VALUES (?1, ?2, ?3, ?4)", params![co, i, t, s])?;
    }
    for t in tags {
        c.execute("INSERT INTO language (tag, englishName, added) VALUES (?1, 'x', '2024-11-14')", params![t])?;
    }
    if let Some(v) = version {
        let comp = db.components.first().map(|c| c.0.as_str()).unwrap_or("x");
        c.execute("INSERT INTO metadata (component, key, value) VALUES (?1, 'author', 'someone')", params![comp])?;
        c.execute("INSERT INTO metadata (component, key, value) VALUES (?1, 'schema_version', ?2)", params![comp, v])?;
    }
    c.execute_batch("COMMIT")
}

pub fn write_db(path: &Path, db: &Db) {
    std::fs::write(path, template()).expect("write");
    let c = Connection::open(path).expect("open");
    fill(&c, db, Some("1.0")).expect("fill");
}

impl SqlRepo {
    pub fn write(&self, dir: &Path) {
        for (stem, db) in &self.files {
            write_db(&dir.join(format!("{stem}.sqlite3")), db);
        }
    }

    pub fn show(&self) -> String {
        self.files
            .iter()
            .map(|(f, d)| format!("{f}.sqlite3: components {:?} contributors {:?} patterns {:?}", d.components, d.contributors, d.patterns))
            .collect::<Vec<_>>()
            .join(" | ")
    }

    /// Components by the contract: those listed in the all-in-one file and those with a file of their own.
    pub fn components(&self) -> BTreeSet<String> {
        let mut s: BTreeSet<String> = self.files.keys().filter(|k| *k != AIO).cloned().collect();
        if let Some(a) = self.files.get(AIO) {
            s.extend(a.components.iter().map(|c| c.0.clone()));
        }
        s
    }

    /// The databases of a component, in order of precedence; None: unknown component.
    pub fn sources(&self, c: &str) -> Option<Vec<&Db>> {
        let mut v = vec![];
        if let Some(a) = self.files.get(AIO) {
            if a.components.iter().any(|x| x.0 == c) {
                v.push(a);
            }
        }
        if c != AIO {
            if let Some(f) = self.files.get(c) {
                v.push(f);
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(v)
        }
    }

    /// All strings of the longest prefix of the tag that has any, from the first database that has any.
    pub fn strings(&self, c: &str, i: &str, tag: &str) -> Option<Vec<(String, String)>> {
        for db in self.sources(c)? {
            let mut t = tag;
            loop {
                let ext = format!("{t}-");
                let v: Vec<(String, String)> = db
                    .patterns
                    .iter()
                    .filter(|p| p.0 == c && p.1 == i && (p.2 == t || p.2.starts_with(&ext)))
                    .map(|p| (p.3.clone(), p.2.clone()))
                    .collect();
                if !v.is_empty() {
                    return Some(v);
                }
                match t.rfind('-') {
                    None => break,
                    Some(p) => t = &t[..p],
                }
            }
        }
        Some(vec![])
    }

    /// The acceptable answers to a request for one string; empty: nothing.
    pub fn string(&self, c: &str, i: &str, tag: &str) -> Option<Vec<(String, String)>> {
        for db in self.sources(c)? {
            let mut t = tag;
            loop {
                let all: Vec<_> = db.patterns.iter().filter(|p| p.0 == c && p.1 == i).collect();
                if let Some(p) = all.iter().find(|p| p.2 == t) {
                    return Some(vec![(p.3.clone(), p.2.clone())]);
                }
                let ext = format!("{t}-");
                let v: Vec<_> = all.iter().filter(|p| p.2.starts_with(&ext)).map(|p| (p.3.clone(), p.2.clone())).collect();
                if !v.is_empty() {
                    return Some(v);
                }
                match t.rfind('-') {
                    None => break,
                    Some(p) => t = &t[..p],
                }
            }
        }
        Some(vec![])
    }

    pub fn exact(&self, c: &str, i: &str, tag: &str) -> Option<Option<(String, String)>> {
        for db in self.sources(c)? {
            if let Some(p) = db.patterns.iter().find(|p| p.0 == c && p.1 == i && p.2 == tag) {
                return Some(Some((p.3.clone(), p.2.clone())));
            }
        }
        Some(None)
    }

    /// The default language of a component by the data (None: missing).
    pub fn default_of(&self, c: &str) -> Option<String> {
        self.sources(c)?.iter().find_map(|d| d.components.iter().find(|x| x.0 == c).map(|x| x.1.clone()))
    }

    pub fn languages(&self, c: &str) -> BTreeSet<String> {
        self.sources(c)
            .unwrap_or_default()
            .iter()
            .flat_map(|d| d.contributors.iter().filter(|x| x.0 == c).map(|x| x.1.clone()))
            .collect()
    }

    pub fn contributors(&self, c: &str, tag: &str) -> BTreeSet<String> {
        self.sources(c)
            .unwrap_or_default()
            .iter()
            .flat_map(|d| d.contributors.iter().filter(|x| x.0 == c && x.1 == tag).map(|x| x.2.clone()))
            .collect()
    }

    pub fn count(&self, c: &str, tag: &str) -> usize {
        self.sources(c).unwrap_or_default().iter().map(|d| d.patterns.iter().filter(|x| x.0 == c && x.2 == tag).count()).sum()
    }

    /// As `count`, with a string that is in both files counted once.
    pub fn distinct(&self, c: &str, tag: &str) -> usize {
        let all: BTreeSet<&String> = self.sources(c).unwrap_or_default().iter().flat_map(|d| d.patterns.iter().filter(|x| x.0 == c && x.2 == tag).map(|x| &x.1)).collect();
        all.len()
    }

    pub fn identifier_languages(&self, c: &str, i: &str) -> BTreeSet<String> {
        self.sources(c)
            .unwrap_or_default()
            .iter()
            .flat_map(|d| d.patterns.iter().filter(|x| x.0 == c && x.1 == i).map(|x| x.2.clone()))
            .collect()
    }
}

/// Names, kinds and contents of everything in a directory.
pub fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(it) = std::fs::read_dir(&d) else { continue };
        for e in it.flatten() {
            let p = e.path();
            let Ok(meta) = std::fs::symlink_metadata(&p) else { continue };
            if meta.is_dir() {
                m.insert(p.clone(), None);
                todo.push(p);
            } else if meta.is_file() {
                m.insert(p.clone(), std::fs::read(&p).ok());
            } else {
                m.insert(p, Some(b"special".to_vec()));
            }
        }
    }
    m
}
