//! C16-C19: command registry, cache, fallback and defaults, nested localisation data.
use crate::engine::{CaseResult, Prop, Rec, Source};
use crate::gen::*;
use crate::mem::{self, show, CmdFn, MemProvider};
use crate::model::*;
use crate::world::*;
use i18n_localiser::{CommandError, CommandRegistry, Localiser, LocaliserError};
use i18n_provider::{ComponentDetails, IdentifierDetails, LocalisationProviderTrait, ProviderError, RepositoryDetails};
use i18n_utility::{LanguageTag, LanguageTagRegistry, LocalisationData, LocalisationTrait, PlaceholderValue};
use std::sync::Mutex;
use std::collections::{BTreeMap, HashSet};
use crate::Rc;

// ---------------------------------------------------------------- C16

macro_rules! marked {
    ($($n:ident $t:literal),*) => {
        $(fn $n(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
            Ok(format!("{}:{}", $t, p.len()))
        })*
        const MARKED: &[(CmdFn, &str)] = &[$(($n, $t)),*];
    };
}
marked!(f0 "f0", f1 "f1", f2 "f2", f3 "f3", f4 "f4");

fn command_name(s: &mut Source) -> String {
    match s.weighted(&[5, 3, 2, 1]) {
        0 => s.pick(&["a", "b", "A", "file_path", "english_a_or_an", "a1", "ab"]).to_string(),
        1 => ident(s),
        2 => text(s, 5),
        _ => String::new(),
    }
}

fn c16(s: &mut Source, r: &mut Rec) -> CaseResult {
    if s.chance(1, 2) {
        return c16_builtin(s, r);
    }
    let regs = [CommandRegistry::new(), CommandRegistry::default()];
    let mut models: [BTreeMap<String, usize>; 2] = Default::default();
    let long = s.long(300);
    r.class_if(long, "long history");
    let n = 1 + s.below(if long { 400 } else { 24 });
    let mut log = String::new();
    let mut repeated = false;
    let mut names: Vec<String> = vec![];
    for _ in 0..n {
        let k = if s.chance(1, 5) { 1 } else { 0 };
        let name = if !names.is_empty() && s.chance(1, 2) { s.pick(&names).clone() } else { command_name(s) };
        names.push(name.clone());
        match s.below(3) {
            0 | 1 => {
                let f = s.below(MARKED.len());
                log.push_str(&format!("insert{k}({name:?},f{f}) "));
                let got = regs[k].insert(&name, MARKED[f].0);
                if models[k].contains_key(&name) {
                    repeated = true;
                    match got {
                        Err(CommandError::AlreadyExists(x)) if x == name => {}
                        other => {
                            r.case(log);
                            return Err(format!("second registration of {name:?} gave {other:?}"));
                        }
                    }
                } else {
                    if let Err(e) = got {
                        r.case(log);
                        return Err(format!("registration of {name:?} failed: {e:?}"));
                    }
                    models[k].insert(name, f);
                }
            }
            _ => log.push_str(&format!("command{k}({name:?}) ")),
        }
        // After every step everything is as the model says.
        if long && names.len() % 50 != 0 && names.len() != n {
            continue;
        }
        for k in 0..2 {
            for name in &names {
                let got = regs[k].command(name);
                let ok = match (models[k].get(name), &got) {
                    (Some(f), Ok(g)) => g(vec![]).ok() == MARKED[*f].0(vec![]).ok(),
                    (None, Err(CommandError::NotFound(x))) => x == name,
                    _ => false,
                };
                if !ok {
                    r.case(log);
                    return Err(format!(
                        "lookup of {name:?} in registry {k}: model {:?}, got {:?}",
                        models[k].get(name),
                        got.map(|g| g(vec![]))
                    ));
                }
            }
            let mut l = regs[k].list();
            l.sort();
            if !l.iter().eq(models[k].keys()) {
                r.case(log);
                return Err(format!("list {l:?}, registered {:?}", models[k].keys().collect::<Vec<_>>()));
            }
        }
    }
    r.class("history");
    r.class_if(repeated, "repeated registration");
    r.nontrivial = repeated;
    r.case(log);
    Ok(())
}

fn c16_builtin(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = LanguageTagRegistry::new();
    let article = s.bool();
    let name = if s.chance(1, 4) { ident(s) } else { if article { "english_a_or_an" } else { "file_path" }.to_string() };
    let n = s.weighted(&[1, 6, 2, 1]);
    let mut params = vec![PlaceholderValue::String(name.clone())];
    for i in 0..n {
        params.push(if i == 0 && s.chance(3, 4) {
            PlaceholderValue::String(match s.below(5) {
                0 => {
                    let c = *s.pick(&['a', 'e', 'i', 'o', 'u', 'A', 'E', 'I', 'O', 'U', 'y', 'h', 'á', 'Å', 'b', 'ａ', 'ı']);
                    format!("{c}{}", text(s, 4))
                }
                1 => s.pick(&["/tmp/x", "a/b/../c", "./x//y/", "C:\\x", "é/ü", "", "a b", "//"]).to_string(),
                2 => char::from(s.below(128) as u8).to_string() + &ident(s),
                3 => ident(s),
                _ => text(s, 8),
            })
        } else {
            any_value(s, &reg)
        });
    }
    r.case(format!("{}({})", if article { "english_a_or_an" } else { "file_path" }, params.iter().map(show).collect::<Vec<_>>().join(", ")));
    r.class(if article { "article" } else { "path" });
    r.nontrivial = true;
    let got = if article { i18n_localiser::english_a_or_an(params.clone()) } else { i18n_localiser::file_path(params.clone()) };
    match (params.get(1), &got) {
        (None, Err(CommandError::ParameterMissing(c, 1))) if *c == name => Ok(()),
        (Some(PlaceholderValue::TaggedString(_) | PlaceholderValue::Localised(..)), _) => Ok(()), // left open
        (Some(PlaceholderValue::String(t)), Ok(x)) => {
            let e = if article {
                if t.starts_with(['a', 'e', 'i', 'o', 'u', 'A', 'E', 'I', 'O', 'U']) { "an" } else { "a" }
            } else {
                t.as_str()
            };
            if x == e {
                Ok(())
            } else {
                Err(format!("expected {e:?}, got {x:?}"))
            }
        }
        (Some(v), Err(CommandError::InvalidType(c, 1))) if *c == name && !matches!(v, PlaceholderValue::String(_)) => Ok(()),
        _ => Err(format!("unexpected result {got:?}")),
    }
}

// ---------------------------------------------------------------- C17

fn flat(f: &mem::Formatted) -> Result<(String, String), String> {
    match f {
        Ok((t, tag)) => Ok((t.to_string(), tag.as_str().to_string())),
        Err(e) => Err(format!("{e:?}")),
    }
}

pub fn history(s: &mut Source, w: &World, max: usize) -> Vec<Op> {
    let n = 2 + s.below(max);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        // Repeats of earlier requests, with or without a change, meet the cache.
        if !ops.is_empty() && s.chance(2, 5) {
            let mut o = s.pick(&ops).clone();
            if let Op::Req(r) = &mut o {
                match s.below(6) {
                    0 => {
                        r.kind = ReqKind::Literal;
                    }
                    1 => {
                        r.kind = ReqKind::Format(s.pick(&w.values[r.id]).clone());
                    }
                    2 => {
                        if let Some(x) = &mut r.explicit {
                            x.1 = Some(s.bool());
                        }
                    }
                    3 => {
                        if let Some(x) = &mut r.explicit {
                            x.2 = Some(s.bool());
                        }
                    }
                    4 => {
                        if let Some(x) = &mut r.explicit {
                            x.0 = w.tag(s);
                        }
                    }
                    _ => {}
                }
            }
            ops.push(o);
        } else {
            ops.push(op(s, w, true));
        }
    }
    ops
}

fn start(s: &mut Source, w: &World) -> Defaults {
    Defaults { tag: w.tag(s), fallback: s.bool(), caching: !s.chance(1, 3) }
}

fn c17(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = Rc::new(LanguageTagRegistry::new());
    let large = s.long(250);
    r.class_if(large, "large repository, long history");
    let w = world(s, &reg, &Shape { components: 2, identifiers: 2, large, ..Default::default() });
    let mut d = start(s, &w);
    let ops = history(s, &w, if large { 600 } else { 14 });
    r.case(format!("{} start {d:?}: {}", w.show(), ops.iter().map(|o| o.show(&w)).collect::<Vec<_>>().join("; ")));
    let repo = Rc::new(w.repo.clone());
    let l = mem::localiser(&repo, &reg, d.fallback, d.caching, &d.tag);
    // Stored strings (identifier and language) formatted with caching so far.
    let mut formatted: HashSet<(usize, String)> = HashSet::new();
    let mut seen: HashSet<(usize, String)> = HashSet::new();
    for (n, o) in ops.iter().enumerate() {
        match o {
            Op::Defaults(t, f, c) => {
                let tag = t.as_ref().map(|t| reg.tag(t).unwrap());
                l.defaults(tag, *f, *c).map_err(|e| format!("defaults: {e:?}"))?;
                d.apply(t, f, c);
            }
            Op::Req(q) => {
                let (tag, fallback, caching) = d.of(q);
                let a = ask(&l, &reg, &w, q);
                let fresh = mem::localiser(&repo, &reg, d.fallback, false, &d.tag);
                let plain = Req { explicit: Some((tag.clone(), Some(fallback), Some(false))), ..q.clone() };
                let b = ask(&fresh, &reg, &w, &plain);
                let literal = matches!(q.kind, ReqKind::Literal | ReqKind::Data(None));
                r.class_if(!seen.insert((q.id, tag)), "repeated string and language");
                r.class_if(b.is_err(), "failing request");
                let (c, i) = &w.ids[q.id];
                let stored = match lookup(&repo, c, i, &d.of(q).0, fallback) {
                    Lookup::Found(_, t) => Some((q.id, t)),
                    _ => None,
                };
                if literal && stored.as_ref().is_some_and(|x| formatted.contains(x)) && matches!(a, Err(LocaliserError::CacheEntry(..))) {
                    r.class("literal of a cached pattern");
                    if !b.as_ref().is_ok_and(|x| x.0.contains(GRAMMAR)) {
                        return Err(format!("request {n}: cache entry error, but the string is no pattern: {:?}", flat(&b)));
                    }
                    continue;
                }
                match (flat(&a), flat(&b)) {
                    (Ok(x), Ok(y)) if x == y => {}
                    // Which of several faults of a string is reported is left open.
                    (Err(x), Err(y)) if x == y || x.starts_with("Formatter(") && y.starts_with("Formatter(") => {}
                    (x, y) => return Err(format!("request {n} ({}): {x:?}, without cache {y:?}", o.show(&w))),
                }
                if caching && !literal {
                    formatted.extend(stored);
                }
            }
        }
    }
    r.nontrivial = r.classes.contains(&"repeated string and language") && !formatted.is_empty();
    Ok(())
}

// ---------------------------------------------------------------- C18

/// Expected text and tag of a request by the models; None where not specified.
pub fn judge(
    what: &str,
    repo: &mem::Repo,
    c: &str,
    i: &str,
    values: Option<&Values>,
    tag: &str,
    fallback: bool,
    got: &mem::Formatted,
) -> Result<&'static str, String> {
    match lookup(repo, c, i, tag, fallback) {
        Lookup::NoComponent => match got {
            Err(e) if is_no_component(e, c) => Ok("unknown component"),
            _ => Err(format!("{what}: unknown component, got {:?}", flat(got))),
        },
        Lookup::NotFound(f) => match got {
            Err(e) if is_not_found(e, c, i, tag, f) => Ok("not found"),
            _ => Err(format!("{what}: no string (fallback used {f}), got {:?}", flat(got))),
        },
        Lookup::Found(string, stag) => {
            let e = match values {
                None => (Out::Text(string.clone()), false),
                Some(v) => expect(&stag, &string, v),
            };
            let text = got.as_ref().map(|x| x.0.to_string()).map_err(|e| format!("{e:?}"));
            compare(&format!("{what} (string {string:?} of {stag})"), &e, &text)?;
            if let Ok((_, t)) = got {
                if t.as_str() != stag {
                    return Err(format!("{what}: tag {} of the result, expected {stag}", t.as_str()));
                }
            }
            if matches!(got, Err(LocaliserError::StringNotFound(..) | LocaliserError::Provider(_))) {
                return Err(format!("{what}: the string exists, got {:?}", flat(got)));
            }
            Ok(if stag == tag {
                "exact language"
            } else if tag.starts_with(&stag) {
                "less specific language"
            } else {
                "default language"
            })
        }
    }
}

fn c18(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = Rc::new(LanguageTagRegistry::new());
    let large = s.long(250);
    r.class_if(large, "large repository, long history");
    let w = world(s, &reg, &Shape { components: 2, identifiers: 2, odd: 1, faults: 0, weights: [4, 1, 2, 4, 2, 5, 1, 0, 3], large, ..Default::default() });
    let mut d = start(s, &w);
    let ops = history(s, &w, if large { 300 } else { 8 });
    r.case(format!("{} start {d:?}: {}", w.show(), ops.iter().map(|o| o.show(&w)).collect::<Vec<_>>().join("; ")));
    let repo = Rc::new(w.repo.clone());
    let l = mem::localiser(&repo, &reg, d.fallback, d.caching, &d.tag);
    let mut formatted: HashSet<(usize, String)> = HashSet::new();
    for (n, o) in ops.iter().enumerate() {
        match o {
            Op::Defaults(t, f, c) => {
                let tag = t.as_ref().map(|t| reg.tag(t).unwrap());
                l.defaults(tag, *f, *c).map_err(|e| format!("defaults: {e:?}"))?;
                d.apply(t, f, c);
                r.class("defaults changed");
            }
            Op::Req(q) => {
                let (tag, fallback, caching) = d.of(q);
                let (c, i) = &w.ids[q.id];
                let a = ask(&l, &reg, &w, q);
                let values = match &q.kind {
                    ReqKind::Format(v) | ReqKind::Data(Some(v)) => Some(v),
                    _ => None,
                };
                let stored = match lookup(&repo, c, i, &tag, fallback) {
                    Lookup::Found(_, t) => Some((q.id, t)),
                    _ => None,
                };
                if values.is_none() && stored.as_ref().is_some_and(|x| formatted.contains(x)) && matches!(a, Err(LocaliserError::CacheEntry(..))) {
                    continue;
                }
                let class = judge(&format!("request {n} ({})", o.show(&w)), &repo, c, i, values, &tag, fallback, &a)?;
                r.class(class);
                r.class_if(q.explicit.is_none(), "with defaults");
                if caching && values.is_some() {
                    formatted.extend(stored);
                }
            }
        }
        if l.default_language().as_str() != d.tag {
            return Err(format!("after step {n}: default language {}, expected {}", l.default_language().as_str(), d.tag));
        }
    }
    r.nontrivial = r.classes.iter().any(|c| ["default language", "less specific language", "not found"].contains(c));
    Ok(())
}

// ---------------------------------------------------------------- C19

fn data_tree(s: &mut Source, w: &World, depth: usize) -> LocalisationData {
    let id = s.below(w.ids.len());
    let (c, i) = w.ids[id].clone();
    if s.chance(1, 5) {
        return LocalisationData { component: c, identifier: i, values: None };
    }
    let mut v = s.pick(&w.values[id]).clone();
    if depth > 0 {
        for p in &w.parts[id] {
            if matches!(p, Part::Str(_)) && s.chance(1, 2) {
                v.insert(
                    placeholder_name(p).unwrap().to_string(),
                    PlaceholderValue::LocalisationData(data_tree(s, w, depth - 1)),
                );
            }
        }
        // Inner data that no placeholder uses, or that is unsuitable for its placeholder.
        if s.chance(1, 6) {
            v.insert(ident(s), PlaceholderValue::LocalisationData(data_tree(s, w, depth - 1)));
        }
    }
    LocalisationData { component: c, identifier: i, values: Some(to_hash(&v)) }
}

fn show_data(d: &LocalisationData) -> String {
    let v = match &d.values {
        None => "none".to_string(),
        Some(v) => {
            let v: BTreeMap<_, _> = v.iter().collect();
            v.iter()
                .map(|(k, v)| match v {
                    PlaceholderValue::LocalisationData(d) => format!("{k:?}={}", show_data(d)),
                    v => format!("{k:?}={:?}", show(v)),
                })
                .collect::<Vec<_>>()
                .join(", ")
        }
    };
    format!("({}/{}: {v})", d.component, d.identifier)
}

fn depth_of(d: &LocalisationData) -> usize {
    1 + d
        .values
        .iter()
        .flat_map(|v| v.values())
        .map(|v| if let PlaceholderValue::LocalisationData(d) = v { depth_of(d) } else { 0 })
        .max()
        .unwrap_or(0)
}

/// By the models: inner data first.
fn inside_out(repo: &mem::Repo, d: &LocalisationData, tag: &str, fallback: bool, reg: &LanguageTagRegistry) -> (Out, bool, String) {
    let mut v = Values::new();
    let (mut bad, mut open, mut soft) = (None, false, false);
    for (k, x) in d.values.iter().flatten() {
        let x = match x {
            PlaceholderValue::LocalisationData(inner) => match inside_out(repo, inner, tag, fallback, reg) {
                (Out::Text(t), m, itag) => {
                    soft |= m;
                    PlaceholderValue::Localised(Rc::new(t), reg.tag(&itag).unwrap())
                }
                (Out::Err(e), ..) => {
                    bad = Some(e);
                    continue;
                }
                (Out::Unspec, ..) => {
                    open = true;
                    continue;
                }
            },
            x => x.clone(),
        };
        v.insert(k.clone(), x);
    }
    if let Some(e) = bad {
        return (Out::Err(format!("inner: {e}")), false, String::new());
    }
    match lookup(repo, &d.component, &d.identifier, tag, fallback) {
        Lookup::Found(string, stag) => {
            if open {
                // Unless the outer string fails anyway.
                return (Out::Unspec, true, stag);
            }
            let (o, m) = match d.values {
                None => (Out::Text(string), false),
                Some(_) => expect(&stag, &string, &v),
            };
            (o, m || soft, stag)
        }
        e => (Out::Err(format!("{e:?}")), false, String::new()),
    }
}

/// On the real localiser: inner data first, by separate requests.
fn stepwise(l: &i18n_localiser::Localiser, d: &LocalisationData, tag: &Rc<i18n_utility::LanguageTag>, fb: bool, ca: bool) -> mem::Formatted {
    let Some(values) = &d.values else {
        return l.literal(&d.component, &d.identifier, tag, Some(fb), Some(ca));
    };
    let mut v = std::collections::HashMap::new();
    for (k, x) in values {
        let x = match x {
            PlaceholderValue::LocalisationData(i) => {
                let (t, tag) = stepwise(l, i, tag, fb, ca)?;
                PlaceholderValue::Localised(t, tag)
            }
            x => x.clone(),
        };
        v.insert(k.clone(), x);
    }
    l.format(&d.component, &d.identifier, &v, tag, Some(fb), Some(ca))
}

fn c19(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = Rc::new(LanguageTagRegistry::new());
    let shape = Shape { components: 2, identifiers: 2, odd: 1, faults: 0, weights: [4, 1, 9, 1, 0, 1, 1, 1, 1], unknown: s.chance(1, 3), ..Default::default() };
    let w = world(s, &reg, &shape);
    let d = start(s, &w);
    let data = data_tree(s, &w, 3);
    let explicit = s.chance(2, 3).then(|| (w.tag(s), s.bool(), s.bool()));
    r.case(format!("{} {d:?} {explicit:?} {}", w.show(), show_data(&data)));
    let repo = Rc::new(w.repo.clone());
    let l = mem::localiser(&repo, &reg, d.fallback, d.caching, &d.tag);
    let (tag, fb, ca) = explicit.clone().unwrap_or((d.tag.clone(), d.fallback, d.caching));
    let rtag = reg.tag(&tag).unwrap();
    let e = inside_out(&repo, &data, &tag, fb, &reg);
    let depth = depth_of(&data);
    r.class_if(depth > 1, "nested");
    r.class_if(depth > 2, "nested twice or more");
    r.class_if(matches!(e.0, Out::Err(_)), "must fail");
    r.class_if(matches!(e.0, Out::Text(_)) && depth > 1, "nested text");
    r.nontrivial = depth > 1;
    // A literal of a string that the cache holds as a pattern may be reported; such trees are asked uncached.
    let mixed = ca && mixes(&data);
    let ca = ca && !mixed;
    for round in 0..2 {
        let got = match &explicit {
            None if !mixed => l.format_localisation_data_with_defaults(&data),
            _ => l.format_localisation_data(&data, &rtag, Some(fb), Some(ca)),
        };
        let text = got.as_ref().map(|x| x.0.to_string()).map_err(|e| format!("{e:?}"));
        compare(&format!("round {round}"), &(e.0.clone(), e.1), &text)?;
        if let (Out::Text(_), Ok(x)) = (&e.0, &got) {
            if x.1.as_str() != e.2 {
                return Err(format!("round {round}: tag {} of the result, expected {}", x.1.as_str(), e.2));
            }
        }
        let fresh = mem::localiser(&repo, &reg, !d.fallback, !d.caching, "de");
        let step = stepwise(&fresh, &data, &rtag, fb, false);
        match (flat(&got), flat(&step)) {
            (Ok(x), Ok(y)) if x == y => {}
            (Err(_), Err(_)) => {}
            (x, y) => return Err(format!("round {round}: {x:?}, inner data localised first {y:?}")),
        }
    }
    Ok(())
}

/// Whether some string is asked for both as a literal and to be formatted.
fn mixes(d: &LocalisationData) -> bool {
    fn walk(d: &LocalisationData, lit: &mut HashSet<(String, String)>, fmt: &mut HashSet<(String, String)>) {
        let k = (d.component.clone(), d.identifier.clone());
        if d.values.is_none() {
            lit.insert(k);
        } else {
            fmt.insert(k);
        }
        for v in d.values.iter().flat_map(|v| v.values()) {
            if let PlaceholderValue::LocalisationData(i) = v {
                walk(i, lit, fmt);
            }
        }
    }
    let (mut a, mut b) = (HashSet::new(), HashSet::new());
    walk(d, &mut a, &mut b);
    a.intersection(&b).next().is_some()
}

// ---------------------------------------------------------------- C31

#[derive(Debug)]
struct Outage(usize);
impl std::fmt::Display for Outage {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "outage {}", self.0)
    }
}
impl std::error::Error for Outage {}
impl LocalisationTrait for Outage {
    fn localisation_data(&self) -> LocalisationData {
        LocalisationData { component: "c".to_string(), identifier: "i".to_string(), values: None }
    }
}
impl i18n_provider::ProviderErrorTrait for Outage {}

/// The n-th error, distinguishable from all others.
fn outage(kind: u8, n: usize, component: &str) -> ProviderError {
    match kind {
        1 => ProviderError::Custom(Rc::new(Box::new(Outage(n)))),
        2 => ProviderError::DefaultLanguage(format!("{component} {n}")),
        3 => ProviderError::ComponentNotFound(component.to_string()),
        4 => ProviderError::DefaultLanguageCount(component.to_string(), format!("{n}")),
        _ => ProviderError::InvalidDefaultLanguage(format!("{component} {n}")),
    }
}

/// Fails calls by a list, and remembers the errors given.
struct Failing {
    inner: MemProvider,
    plan: Vec<u8>,
    state: Rc<Mutex<(usize, Vec<String>)>>,
}

impl Failing {
    fn check(&self, component: &str) -> Result<(), ProviderError> {
        let mut st = self.state.lock().unwrap();
        let n = st.0;
        st.0 += 1;
        match self.plan[n % self.plan.len()] {
            0 => Ok(()),
            k => {
                let e = outage(k, n, component);
                st.1.push(format!("{e:?}"));
                Err(e)
            }
        }
    }
}

type Strings = (String, Rc<LanguageTag>);
impl LocalisationProviderTrait for Failing {
    fn string(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<Strings>, ProviderError> {
        self.check(c)?;
        self.inner.string(c, i, t)
    }
    fn string_exact_match(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<Strings>, ProviderError> {
        self.check(c)?;
        self.inner.string_exact_match(c, i, t)
    }
    fn strings(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Vec<Strings>, ProviderError> {
        self.check(c)?;
        self.inner.strings(c, i, t)
    }
    fn identifier_details(&self, c: &str, i: &str) -> Result<IdentifierDetails, ProviderError> {
        self.check(c)?;
        self.inner.identifier_details(c, i)
    }
    fn component_details(&self, c: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        self.check(c)?;
        self.inner.component_details(c)
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        self.check("")?;
        self.inner.repository_details()
    }
}

fn c31(s: &mut Source, r: &mut Rec) -> CaseResult {
    let reg = Rc::new(LanguageTagRegistry::new());
    let w = world(s, &reg, &Shape { components: 2, identifiers: 2, odd: 1, faults: 0, weights: [4, 1, 5, 3, 1, 3, 1, 0, 2], ..Default::default() });
    let mut d = start(s, &w);
    let ops = history(s, &w, 14);
    // A tree of data instead of some requests.
    let trees: Vec<Option<LocalisationData>> = ops.iter().map(|_| s.chance(1, 4).then(|| data_tree(s, &w, 2))).collect();
    let often = *s.pick(&[2, 3, 5, 9]);
    let plan: Vec<u8> = (0..5 + s.below(40)).map(|_| if s.chance(1, often) { 1 + s.below(5) as u8 } else { 0 }).collect();
    r.case(format!(
        "{} start {d:?}, calls fail by {plan:?}: {}",
        w.show(),
        ops.iter().zip(&trees).map(|(o, t)| match t {
            Some(t) => format!("data{}", show_data(t)),
            None => o.show(&w),
        }).collect::<Vec<_>>().join("; ")
    ));
    let repo = Rc::new(w.repo.clone());
    let state = Rc::new(Mutex::new((0, vec![])));
    let provider = Failing { inner: MemProvider { repo: Rc::clone(&repo), registry: Rc::clone(&reg) }, plan, state: Rc::clone(&state) };
    let l = Localiser::try_new(&icu(), &reg, Box::new(provider), &mem::commands(), d.fallback, d.caching, &d.tag)
        .map_err(|e| format!("localiser: {e:?}"))?;
    let mut formatted: HashSet<(String, String, String)> = HashSet::new();
    let mut failed = false;
    for (n, o) in ops.iter().enumerate() {
        let q = match o {
            Op::Defaults(t, f, c) => {
                let tag = t.as_ref().map(|t| reg.tag(t).unwrap());
                l.defaults(tag, *f, *c).map_err(|e| format!("defaults: {e:?}"))?;
                d.apply(t, f, c);
                continue;
            }
            Op::Req(q) => q,
        };
        let (tag, fallback, caching) = d.of(q);
        state.lock().unwrap().1.clear();
        let a = match &trees[n] {
            Some(t) => match &q.explicit {
                None => l.format_localisation_data_with_defaults(t),
                Some((t2, f, k)) => l.format_localisation_data(t, &reg.tag(t2).unwrap(), *f, *k),
            },
            None => ask(&l, &reg, &w, q),
        };
        let raised = std::mem::take(&mut state.lock().unwrap().1);
        let what = match &trees[n] {
            Some(t) => format!("request {n} (data{} {:?})", show_data(t), q.explicit),
            None => format!("request {n} ({})", o.show(&w)),
        };
        // All strings that may be in the cache as patterns.
        let tree = trees[n].clone().unwrap_or_else(|| LocalisationData {
            component: w.ids[q.id].0.clone(),
            identifier: w.ids[q.id].1.clone(),
            values: match &q.kind {
                ReqKind::Format(v) | ReqKind::Data(Some(v)) => Some(to_hash(v)),
                _ => None,
            },
        });
        let stored = |c: &str, i: &str| match lookup(&repo, c, i, &tag, fallback) {
            Lookup::Found(_, t) => Some((c.to_string(), i.to_string(), t)),
            _ => None,
        };
        let mut cached_literal = false;
        let mut formats = vec![];
        let mut todo = vec![&tree];
        while let Some(t) = todo.pop() {
            let k = stored(&t.component, &t.identifier);
            if t.values.is_none() {
                cached_literal |= k.as_ref().is_some_and(|k| formatted.contains(k));
            } else if caching {
                formats.extend(k);
            }
            todo.extend(t.values.iter().flat_map(|v| v.values()).filter_map(|v| match v {
                PlaceholderValue::LocalisationData(t) => Some(t),
                _ => None,
            }));
        }
        let mixed = caching && mixes(&tree);
        formatted.extend(formats);
        if let Some(first) = raised.first() {
            r.class("provider failed");
            failed = true;
            match &a {
                Err(LocaliserError::Provider(e)) if raised.len() == 1 && format!("{e:?}") == *first => {}
                _ => return Err(format!("{what}: the provider reported {raised:?}, got {:?}", flat(&a))),
            }
            continue;
        }
        if (cached_literal || mixed) && matches!(a, Err(LocaliserError::CacheEntry(..))) {
            continue;
        }
        r.class_if(failed, "request after a failure");
        // Data among the values of a plain format request is not localised.
        let plain = trees[n].is_none() && matches!(q.kind, ReqKind::Format(_));
        if let (true, ReqKind::Format(v)) = (plain, &q.kind) {
            judge(&what, &repo, &tree.component, &tree.identifier, Some(v), &tag, fallback, &a)?;
            continue;
        }
        let e = inside_out(&repo, &tree, &tag, fallback, &reg);
        let text = a.as_ref().map(|x| x.0.to_string()).map_err(|e| format!("{e:?}"));
        compare(&what, &(e.0.clone(), e.1), &text)?;
        if let (Out::Text(_), Ok(x)) = (&e.0, &a) {
            if x.1.as_str() != e.2 {
                return Err(format!("{what}: tag {} of the result, expected {}", x.1.as_str(), e.2));
            }
        }
        // Without an error of the provider only an unknown component is one.
        if let Err(LocaliserError::Provider(e)) = &a {
            if !matches!(e, ProviderError::ComponentNotFound(c) if !repo.components.contains_key(c)) {
                return Err(format!("{what}: error of the provider {e:?} without one"));
            }
        }
    }
    r.nontrivial = r.classes.contains(&"provider failed") && r.classes.contains(&"request after a failure");
    Ok(())
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C31",
        rule: "histories as C17, with trees of nested data, on a provider that fails calls (string or component details) by a random plan with five kinds of errors; a request during which it failed must give that error, every other one what the models say. Non-trivial: a failure and a later request without.",
        tape: 2600,
        quick: 20_000,
        thorough: 600_000,
        level: "exploration",
        assumptions: &["ICU formats numbers, dates and plurals correctly"],
        run: c31,
        fixed: None,
    },
    Prop {
        id: "C16",
        rule: "histories of registrations and lookups (up to 400 steps) in two registries, all lookups and the list compared with a map after each step; parameter lists for the built-in commands. Non-trivial: a history with a repeated registration, or a built-in call.",
        tape: 120,
        quick: 150_000,
        thorough: 1_500_000,
        level: "exploration",
        assumptions: &["tagged and localised texts as parameters of the built-in commands are not judged"],
        run: c16,
        fixed: None,
    },
    Prop {
        id: "C17",
        rule: "a repository of 1-2 components with patterns in up to 6 languages and a history of 2-15 (some of up to 600, over up to 8 components with 25 identifiers in up to 20 languages) format, literal, data and defaults requests on one localiser; each request repeated on a fresh localiser without caching. Non-trivial: a string and language asked for more than once and something formatted with caching.",
        tape: 2400,
        quick: 14_000,
        thorough: 350_000,
        level: "exploration",
        assumptions: &[],
        run: c17,
        fixed: None,
    },
    Prop {
        id: "C18",
        rule: "as C17, each result compared with the model of lookup, fallback and defaults and the reference evaluator for the language of the string found. Non-trivial: the string of the default language, of a less specific language, or none was used.",
        tape: 2400,
        quick: 20_000,
        thorough: 600_000,
        level: "exploration",
        assumptions: &["ICU formats numbers, dates and plurals correctly"],
        run: c18,
        fixed: None,
    },
    Prop {
        id: "C19",
        rule: "random trees of localisation data of depth up to 4 over a generated repository, formatted twice, compared with the inside-out model and with step by step requests on another localiser. Non-trivial: data nested in data.",
        tape: 2400,
        quick: 15_000,
        thorough: 300_000,
        level: "exploration",
        assumptions: &[],
        run: c19,
        fixed: None,
    },
];
