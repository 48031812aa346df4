//! Repositories of patterns in several languages, request histories, and the model of lookup and fallback.
use crate::engine::Source;
use crate::gen::*;
use crate::mem::{Formatted, Repo};
use crate::model::*;
use i18n_localiser::{Localiser, LocaliserError};
use i18n_provider::ProviderError;
use i18n_utility::{LanguageTagRegistry, LocalisationData, PlaceholderValue};

pub const TAGS: &[&str] = &[
    "en", "en-ZA", "en-GB", "it", "it-CH", "fr", "fr-CA", "pl", "ar", "ar-EG", "zh", "zh-Hant", "zh-Hant-HK", "cy", "de",
    "de-1996", "sr-Latn", "sr-Latn-RS", "ga", "hi",
];

pub struct World {
    pub repo: Repo,
    /// (component, identifier) pairs, existing and not.
    pub ids: Vec<(String, String)>,
    pub tags: Vec<&'static str>,
    /// identifier index -> value sets
    pub values: Vec<Vec<Values>>,
    /// identifier index -> placeholders of all its strings
    pub parts: Vec<Vec<Part>>,
}

pub struct Shape {
    pub components: usize,
    pub identifiers: usize,
    pub weights: [usize; 9],
    pub parts: usize,
    pub named: usize,
    /// in 16: strings that are no pattern / arbitrary text
    pub odd: usize,
    /// in 16: placeholders without a suitable value
    pub faults: usize,
    /// The tags of the strings are drawn from the provider contract of the in-memory provider (False: any tag).
    pub unknown: bool,
    /// Many languages, components and identifiers.
    pub large: bool,
}

impl Default for Shape {
    fn default() -> Self {
        Shape { components: 3, identifiers: 3, weights: [5, 1, 4, 2, 1, 3, 2, 1, 2], parts: 3, named: 3, odd: 2, faults: 1, unknown: true, large: false }
    }
}

fn name(s: &mut Source, used: &[String], base: &str) -> String {
    let mut n = match s.weighted(&[11, 3, 2, 2, 1]) {
        0 => format!("{base}{}", s.below(if used.len() > 12 { 200 } else { 20 })),
        1 => ident(s),
        // Short names of separators.
        3 => (0..1 + s.below(3)).map(|_| *s.pick(&["a", "b", "/", "a/b", ".", ":", " "])).collect(),
        4 => crate::gen::any_name(s),
        // Few short names: prefixes of each other, and pairs with the same concatenation.
        _ => (0..1 + s.below(3)).map(|_| *s.pick(&['a', 'b'])).collect(),
    };
    n.retain(|c| c != '\0');
    if n.is_empty() {
        n.push('k');
    }
    while used.contains(&n) {
        n.push('_');
    }
    n
}

/// A name that differs in case, white space or the end only.
fn alike(s: &mut Source, n: &str) -> String {
    match s.below(6) {
        0 => n.to_uppercase(),
        1 => format!("{n} "),
        2 => format!(" {n}"),
        3 => format!("{n}\u{301}"),
        4 => format!("{n}0"),
        _ => n.chars().rev().collect(),
    }
}

pub fn world(s: &mut Source, reg: &LanguageTagRegistry, shape: &Shape) -> World {
    let mut w = World { repo: Repo::default(), ids: vec![], tags: vec![], values: vec![], parts: vec![] };
    let n = 2 + s.below(if shape.large { TAGS.len() - 2 } else { 5 });
    while w.tags.len() < n {
        let t = *s.pick(TAGS);
        let t = extended(s, t, false);
        if !w.tags.contains(&t) {
            w.tags.push(t);
        } else {
            // also ends on an exhausted tape
            w.tags.push(*TAGS.iter().find(|t| !w.tags.contains(t)).unwrap());
        }
    }
    let nc = 1 + s.below(if shape.large { 8 } else { shape.components });
    let mut comps: Vec<String> = vec![];
    for _ in 0..nc {
        // Two pairs (component, identifier) with the same concatenation.
        let mut shifted: Option<String> = None;
        let mut c = String::new();
        if let Some((c0, i0)) = w.ids.first().filter(|_| s.chance(1, 5)) {
            let mut rest = i0.chars();
            if let Some((h, t)) = i0.split_once(['/', '.', ':']).filter(|(_, t)| !t.is_empty()) {
                // `c`, `h/t` and `c/h`, `t`.
                let sep = &i0[h.len()..i0.len() - t.len()];
                let name = format!("{c0}{sep}{h}");
                if !comps.contains(&name) {
                    c = name;
                    shifted = Some(t.to_string());
                }
            } else if let Some(h) = rest.next() {
                if !rest.as_str().is_empty() && !comps.contains(&format!("{c0}{h}")) {
                    c = format!("{c0}{h}");
                    shifted = Some(rest.as_str().to_string());
                }
            }
        }
        if c.is_empty() {
            c = name(s, &comps, "comp");
        }
        comps.push(c.clone());
        let default = *s.pick(&w.tags);
        let mut idents: Vec<String> = vec![];
        for _ in 0..1 + s.below(if shape.large { 25 } else { shape.identifiers }) {
            let i = if let Some(i) = shifted.take() {
                i
            } else if let Some(i) = idents.first().filter(|_| s.chance(1, 8)).cloned().map(|i| alike(s, &i)).filter(|i| !idents.contains(i)) {
                // Identifiers that hardly differ.
                i
            } else if !w.ids.is_empty() && s.chance(1, 4) && !idents.contains(&w.ids[0].1) {
                // The same identifier in several components.
                w.ids[0].1.clone()
            } else {
                name(s, &idents, "id")
            };
            idents.push(i.clone());
            let mut parts: Vec<Part> = vec![];
            let mut sets = vec![Values::new(); 1 + s.below(2)];
            let mut tags = w.tags.clone();
            tags.retain(|t| if *t == default { !s.chance(1, 6) } else { s.chance(1, 2) });
            for t in tags {
                let mut g = PatGen { weights: shape.weights, max_parts: shape.parts, max_named: shape.named, ..Default::default() };
                let string = match s.weighted(&[16 - shape.odd, shape.odd]) {
                    0 => {
                        let p = g.pattern(s);
                        render(s, &p)
                    }
                    _ => match s.below(6) {
                        // A string with number signs is used by a `select` too.
                        4 | 5 => {
                            let p = g.mixed(s);
                            render(s, &p)
                        }
                        0 => String::new(),
                        1 => plain_text(s, 6),
                        2 => text(s, 8),
                        _ => crate::props::pattern::soup(s),
                    },
                };
                for v in &mut sets {
                    v.append(&mut g.values(s, reg, shape.faults));
                }
                parts.append(&mut g.placeholders);
                w.repo.put(&c, &i, t, &string);
            }
            w.ids.push((c.clone(), i));
            w.values.push(sets);
            w.parts.push(parts);
        }
        // A component without any string would not exist.
        w.repo.components.entry(c).or_default().default = default.to_string();
    }
    if shape.unknown {
        w.ids.push((comps[0].clone(), "missing".to_string()));
        w.values.push(vec![Values::new()]);
        w.parts.push(vec![]);
        w.ids.push(("nowhere".to_string(), "id0".to_string()));
        w.values.push(vec![Values::new()]);
        w.parts.push(vec![]);
    }
    w
}

impl World {
    pub fn show(&self) -> String {
        let mut t = String::new();
        for (c, d) in &self.repo.components {
            t.push_str(&format!("[{c} default {}", d.default));
            for (i, m) in &d.strings {
                t.push_str(&format!("; {i}: {m:?}"));
            }
            t.push_str("] ");
        }
        t
    }
    /// A tag to ask for: one of the world, an extension or a reduction of one, or another.
    pub fn tag(&self, s: &mut Source) -> String {
        let t = *s.pick(&self.tags);
        match s.weighted(&[8, 2, 2, 2]) {
            0 => t.to_string(),
            1 => t.split('-').next().unwrap().to_string(),
            2 if !t.contains("1996") && !has_extension(t) => format!("{t}-{}", if t.split('-').any(|x| x.len() == 2 && x.to_uppercase() == x) { "oxendict" } else { "US" }),
            _ => s.pick(TAGS).to_string(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Req {
    pub id: usize,
    pub kind: ReqKind,
    /// None: with defaults.
    pub explicit: Option<(String, Option<bool>, Option<bool>)>,
}

#[derive(Clone, Debug)]
pub enum ReqKind {
    Format(Values),
    Literal,
    Data(Option<Values>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Req(Req),
    Defaults(Option<String>, Option<bool>, Option<bool>),
}

impl Op {
    pub fn show(&self, w: &World) -> String {
        match self {
            Op::Defaults(a, b, c) => format!("defaults({a:?},{b:?},{c:?})"),
            Op::Req(r) => {
                let (c, i) = &w.ids[r.id];
                let k = match &r.kind {
                    ReqKind::Format(v) => format!("format({c},{i},{})", show_values(v)),
                    ReqKind::Literal => format!("literal({c},{i})"),
                    ReqKind::Data(v) => format!("data({c},{i},{})", v.as_ref().map(show_values).unwrap_or("none".to_string())),
                };
                format!("{k} {:?}", r.explicit)
            }
        }
    }
}

fn opt_bool(s: &mut Source) -> Option<bool> {
    match s.below(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    }
}

pub fn op(s: &mut Source, w: &World, data: bool) -> Op {
    if s.chance(1, 7) {
        let t = s.bool().then(|| w.tag(s));
        return Op::Defaults(t, opt_bool(s), opt_bool(s));
    }
    let id = s.below(w.ids.len());
    let kind = match s.weighted(&[6, 2, if data { 2 } else { 0 }]) {
        0 => ReqKind::Format(s.pick(&w.values[id]).clone()),
        1 => ReqKind::Literal,
        _ => ReqKind::Data(s.bool().then(|| {
            let mut v = s.pick(&w.values[id]).clone();
            v.retain(|_, x| !matches!(x, PlaceholderValue::LocalisationData(_)));
            v
        })),
    };
    let explicit = (!s.chance(1, 4)).then(|| (w.tag(s), opt_bool(s), opt_bool(s)));
    Op::Req(Req { id, kind, explicit })
}

/// Performs a request.
pub fn ask(l: &Localiser, reg: &LanguageTagRegistry, w: &World, r: &Req) -> Formatted {
    let (c, i) = &w.ids[r.id];
    let data = |v: &Option<Values>| LocalisationData {
        component: c.clone(),
        identifier: i.clone(),
        values: v.as_ref().map(to_hash),
    };
    match (&r.kind, &r.explicit) {
        (ReqKind::Format(v), Some((t, f, k))) => l.format(c, i, &to_hash(v), &reg.tag(t).unwrap(), *f, *k),
        (ReqKind::Format(v), None) => l.format_with_defaults(c, i, &to_hash(v)),
        (ReqKind::Literal, Some((t, f, k))) => l.literal(c, i, &reg.tag(t).unwrap(), *f, *k),
        (ReqKind::Literal, None) => l.literal_with_defaults(c, i),
        (ReqKind::Data(v), Some((t, f, k))) => l.format_localisation_data(&data(v), &reg.tag(t).unwrap(), *f, *k),
        (ReqKind::Data(v), None) => l.format_localisation_data_with_defaults(&data(v)),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lookup {
    NoComponent,
    NotFound(bool),
    Found(String, String),
}

/// The string that a request has to use.
pub fn lookup(repo: &Repo, c: &str, i: &str, tag: &str, fallback: bool) -> Lookup {
    match repo.find(c, i, tag) {
        Err(()) => Lookup::NoComponent,
        Ok(Some((t, tag))) => Lookup::Found(t.to_string(), tag.to_string()),
        Ok(None) if !fallback => Lookup::NotFound(false),
        Ok(None) => match repo.find(c, i, &repo.components[c].default) {
            Ok(Some((t, tag))) => Lookup::Found(t.to_string(), tag.to_string()),
            _ => Lookup::NotFound(true),
        },
    }
}

#[derive(Clone, Debug)]
pub struct Defaults {
    pub tag: String,
    pub fallback: bool,
    pub caching: bool,
}

impl Defaults {
    pub fn apply(&mut self, t: &Option<String>, f: &Option<bool>, c: &Option<bool>) {
        if let Some(t) = t {
            self.tag = t.clone();
        }
        self.fallback = f.unwrap_or(self.fallback);
        self.caching = c.unwrap_or(self.caching);
    }
    /// Tag, fallback and caching that apply to a request.
    pub fn of(&self, r: &Req) -> (String, bool, bool) {
        match &r.explicit {
            None => (self.tag.clone(), self.fallback, self.caching),
            Some((t, f, c)) => (t.clone(), f.unwrap_or(self.fallback), c.unwrap_or(self.caching)),
        }
    }
}

/// Whether an error says that the string was not found, with exactly these details.
pub fn is_not_found(e: &LocaliserError, c: &str, i: &str, tag: &str, fallback: bool) -> bool {
    matches!(e, LocaliserError::StringNotFound(a, b, t, f) if a == c && b == i && t == tag && *f == fallback)
}

pub fn is_no_component(e: &LocaliserError, c: &str) -> bool {
    matches!(e, LocaliserError::Provider(ProviderError::ComponentNotFound(x)) if x == c)
}
