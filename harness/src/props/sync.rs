//! C27: shared use from several threads, in the build with the feature `sync`; sequential use in that build.
use super::provider::{self, a_component, a_tag, an_ask, an_id, judge_details, judge_requests, open, sql_repo, Ask};
use super::registry::{self, alpha, canonical, check_lists, Model};
use crate::engine::{no_panic, CaseResult, Prop, Rec, Source};
use crate::gen::*;
use crate::mem;
use crate::sql;
use crate::world::{self, Defaults, Op, Shape};
use crate::Rc;
use i18n_lexer::IcuDataProvider;
use i18n_localiser::Localiser;
use i18n_provider::{ComponentDetails, IdentifierDetails, LocalisationProviderTrait, ProviderError, RepositoryDetails};
use i18n_provider_sqlite3::LocalisationProviderSqlite3;
use i18n_utility::{LanguageTag, LanguageTagRegistry};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};

/// One provider shared by several localisers.
struct Shared(Rc<LocalisationProviderSqlite3>);

type Found = (String, Rc<LanguageTag>);

impl LocalisationProviderTrait for Shared {
    fn string(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<Found>, ProviderError> {
        self.0.string(c, i, t)
    }
    fn string_exact_match(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Option<Found>, ProviderError> {
        self.0.string_exact_match(c, i, t)
    }
    fn strings(&self, c: &str, i: &str, t: &Rc<LanguageTag>) -> Result<Vec<Found>, ProviderError> {
        self.0.strings(c, i, t)
    }
    fn identifier_details(&self, c: &str, i: &str) -> Result<IdentifierDetails, ProviderError> {
        self.0.identifier_details(c, i)
    }
    fn component_details(&self, c: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        self.0.component_details(c)
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        self.0.repository_details()
    }
}

/// Threads meet here; spinning makes them go on at nearly the same moment, and a thread that has ended does not
/// keep the others waiting.
struct Meeting {
    arrived: AtomicUsize,
    ended: AtomicUsize,
    threads: usize,
}

impl Meeting {
    fn new(threads: usize) -> Self {
        Meeting { arrived: AtomicUsize::new(0), ended: AtomicUsize::new(0), threads }
    }
    /// Waits for the n-th meeting (n from 1), at most for some time: the meetings only sharpen the schedule.
    fn meet(&self, n: usize) {
        self.arrived.fetch_add(1, Ordering::SeqCst);
        for k in 0..20_000u32 {
            if self.arrived.load(Ordering::SeqCst) >= n * self.threads || self.ended.load(Ordering::SeqCst) > 0 {
                return;
            }
            if k % 64 == 63 {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

fn pause(n: u32) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

/// Runs a closure per thread and gives the results, or the first failure or panic.
fn together<T: Send>(threads: usize, f: impl Fn(usize, &Meeting) -> Result<T, String> + Sync) -> Result<Vec<T>, String> {
    let m = Meeting::new(threads);
    let (m, f) = (&m, &f);
    std::thread::scope(|scope| {
        let handles: Vec<_> = (0..threads)
            .map(|k| {
                scope.spawn(move || {
                    let r = no_panic(&format!("thread {k}"), || f(k, m));
                    m.ended.fetch_add(1, Ordering::SeqCst);
                    r.and_then(|x| x.map_err(|e| format!("thread {k}: {e}")))
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().map_err(|_| "thread ended by a panic".to_string())?).collect()
    })
}

// ---------------------------------------------------------------- one registry

#[derive(Clone, Debug)]
enum Step {
    Tag(String),
    Icu(String),
    Lists,
}

fn shared_registry(s: &mut Source, r: &mut Rec) -> CaseResult {
    let threads = 2 + s.below(3);
    let bases: Vec<String> = (0..1 + s.below(5)).map(|_| registry::base(s)).collect();
    let spell = |s: &mut Source| loop {
        let t = match s.weighted(&[6, 3, 1]) {
            0 => {
                let b = s.pick(&bases).clone();
                registry::respell(s, &b)
            }
            1 => {
                let b = s.pick(&bases).clone();
                canonical(&b).unwrap_or(b)
            }
            _ => registry::malformed(s),
        };
        if !alpha(t.split(['-', '_']).next().unwrap(), 5, 8) {
            return t;
        }
        if s.exhausted() {
            return "en".to_string();
        }
    };
    // Each round is a list of steps per thread; in many rounds all threads ask for the same tag.
    let rounds: Vec<Vec<(Vec<Step>, u32)>> = (0..1 + s.below(5))
        .map(|_| {
            let same = s.chance(2, 3).then(|| s.pick(&bases).clone());
            (0..threads)
                .map(|_| {
                    let steps = (0..1 + s.below(3))
                        .map(|_| {
                            let t = match &same {
                                Some(b) => {
                                    if s.bool() {
                                        canonical(b).unwrap_or(b.clone())
                                    } else {
                                        registry::respell(s, b)
                                    }
                                }
                                None => spell(s),
                            };
                            match s.weighted(&[5, 3, 1]) {
                                0 => Step::Tag(t),
                                1 => Step::Icu(t),
                                _ => Step::Lists,
                            }
                        })
                        .collect();
                    (steps, if s.bool() { 0 } else { s.below(200) as u32 })
                })
                .collect()
        })
        .collect();
    r.case(format!("{threads} threads on one registry: {rounds:?}"));
    let ok = |t: &str| !alpha(t.split(['-', '_']).next().unwrap(), 5, 8);
    for _ in 0..4 {
        let reg = LanguageTagRegistry::new();
        type Seen = (Vec<(String, Rc<LanguageTag>)>, Vec<(String, Rc<icu_locid::LanguageIdentifier>)>);
        let results: Vec<Seen> = together(threads, |k, m| {
            let mut tags: Vec<(String, Rc<LanguageTag>)> = vec![];
            let mut icus = vec![];
            for (n, round) in rounds.iter().enumerate() {
                let (steps, wait) = &round[k];
                m.meet(n + 1);
                pause(*wait);
                for step in steps {
                    match step {
                        Step::Tag(t) | Step::Icu(t) => {
                            if !ok(t) {
                                continue;
                            }
                            match (canonical(t), reg.tag(t)) {
                                (None, Err(_)) => {}
                                (Some(c), Ok(tag)) if tag.as_str() == c => {
                                    if matches!(step, Step::Icu(_)) {
                                        let i = reg.icu_language(&tag);
                                        if *i != tag.icu_language() {
                                            return Err(format!("icu language of {t:?} is {i}"));
                                        }
                                        icus.push((c, i));
                                    }
                                    tags.push((t.clone(), tag));
                                }
                                (c, g) => return Err(format!("tag({t:?}) gave {g:?}, expected {c:?}")),
                            }
                        }
                        Step::Lists => {
                            let l = registry::sorted(reg.list());
                            let mut d = l.clone();
                            d.dedup();
                            if l != d {
                                return Err(format!("list has duplicates: {l:?}"));
                            }
                            for (_, t) in &tags {
                                if d.binary_search(&t.as_str().to_string()).is_err() {
                                    return Err(format!("list lacks {:?}: {l:?}", t.as_str()));
                                }
                            }
                            let all = registry::sorted(reg.list_all());
                            for (_, t) in &tags {
                                if all.binary_search(&t.as_str().to_string()).is_err() {
                                    return Err(format!("list_all lacks {:?}: {l:?}", t.as_str()));
                                }
                            }
                            drop(reg.list_deprecated());
                        }
                    }
                }
            }
            Ok((tags, icus))
        })?;
        // One instance per tag, whichever thread asked.
        let mut m = Model { tags: BTreeMap::new(), spellings: BTreeSet::new() };
        let mut icus: BTreeMap<String, Rc<icu_locid::LanguageIdentifier>> = BTreeMap::new();
        let mut by: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for (k, (tags, ic)) in results.iter().enumerate() {
            for (text, t) in tags {
                let c = t.as_str().to_string();
                by.entry(c.clone()).or_default().insert(k);
                if *text != c {
                    m.spellings.insert(text.clone());
                }
                let old = m.tags.entry(c.clone()).or_insert_with(|| Rc::clone(t));
                if !Rc::ptr_eq(old, t) {
                    return Err(format!("two instances of {c:?}"));
                }
            }
            for (c, i) in ic {
                let old = icus.entry(c.clone()).or_insert_with(|| Rc::clone(i));
                if !Rc::ptr_eq(old, i) {
                    return Err(format!("two icu instances of {c:?}"));
                }
            }
        }
        check_lists(&reg, &m)?;
        if by.values().any(|x| x.len() > 1) {
            r.class("tag looked up by several threads");
            r.nontrivial = true;
        }
    }
    r.class("shared registry");
    Ok(())
}

// ---------------------------------------------------------------- one provider

#[derive(Clone, Debug)]
enum Query {
    Strings(String, String, String, usize),
    Details(Ask),
}

fn one_tag_each(reg: &LanguageTagRegistry) -> CaseResult {
    let l = registry::sorted(reg.list());
    let mut d = l.clone();
    d.dedup();
    if l != d {
        return Err(format!("the registry lists {l:?}"));
    }
    for t in reg.list() {
        if !Rc::ptr_eq(&t, &reg.tag(t.as_str()).unwrap()) {
            return Err(format!("the registry lists another instance of {:?}", t.as_str()));
        }
    }
    Ok(())
}

fn shared_provider(s: &mut Source, r: &mut Rec) -> CaseResult {
    sql::init();
    let m = sql_repo(s, 3, 8);
    let threads = 2 + s.below(3);
    let common: Option<Ask> = s.chance(1, 2).then(|| an_ask(s, &m));
    let lists: Vec<Vec<Query>> = (0..threads)
        .map(|_| {
            let mut v: Vec<Query> = vec![];
            // The details are made once, by the first request: all threads ask at once.
            v.extend(common.clone().map(Query::Details));
            for _ in 0..1 + s.below(6) {
                v.push(if s.chance(2, 5) { Query::Details(an_ask(s, &m)) } else { Query::Strings(a_component(s, &m), an_id(s, &m), a_tag(s, &m), s.below(6)) });
            }
            v
        })
        .collect();
    r.case(format!("{threads} threads on one provider of {}: {lists:?}", m.repo.show()));
    let dir = scratch();
    m.repo.write(&dir);
    for _ in 0..2 {
        let reg = Rc::new(LanguageTagRegistry::new());
        let p = Rc::new(open(&dir, &reg)?);
        let recs = together(threads, |k, meeting| {
            let mut rec = Rec::default();
            for (n, q) in lists[k].iter().enumerate() {
                if n < 2 {
                    meeting.meet(n + 1);
                }
                match q {
                    Query::Details(a) => rec.class(judge_details(&p, &m.repo, a)?),
                    Query::Strings(c, i, t, order) => judge_requests(&p, &m.repo, &reg, (c, i, t), *order, &mut rec)?,
                }
            }
            Ok(rec)
        })?;
        for rec in recs {
            rec.classes.iter().for_each(|c| r.class(c));
        }
        for c in m.repo.components() {
            judge_details(&p, &m.repo, &Ask::Component(c))?;
        }
        judge_details(&p, &m.repo, &Ask::Repository)?;
        one_tag_each(&reg)?;
    }
    r.class("shared provider");
    r.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- localisers of several threads

fn shared_localisers(s: &mut Source, r: &mut Rec) -> CaseResult {
    sql::init();
    let reg = Rc::new(LanguageTagRegistry::new());
    let w = world::world(s, &reg, &Shape { components: 2, identifiers: 2, odd: 1, faults: 1, ..Default::default() });
    let repo = provider::world_repo(s, &w);
    let threads = 2 + s.below(2);
    let each: Vec<(Defaults, Vec<Op>)> = (0..threads)
        .map(|_| {
            let d = Defaults { tag: w.tag(s), fallback: s.bool(), caching: !s.chance(1, 3) };
            (d, (0..1 + s.below(5)).map(|_| world::op(s, &w, true)).collect())
        })
        .collect();
    r.case(format!(
        "{} {}",
        repo.show(),
        each.iter().map(|(d, o)| format!("thread {d:?}: {}", o.iter().map(|o| o.show(&w)).collect::<Vec<_>>().join("; "))).collect::<Vec<_>>().join(" | ")
    ));
    let dir = scratch();
    repo.write(&dir);
    let p = Rc::new(open(&dir, &reg)?);
    let icu: Rc<IcuDataProvider> = icu();
    let recs = together(threads, |k, m| {
        let mut rec = Rec::default();
        let (d, ops) = &each[k];
        let l = Localiser::try_new(&icu, &reg, Box::new(Shared(Rc::clone(&p))), &mem::commands(), d.fallback, d.caching, &d.tag).map_err(|e| format!("localiser: {e:?}"))?;
        m.meet(1);
        provider::drive(&l, &reg, &w, &repo, &mut d.clone(), ops, &mut rec)?;
        Ok(rec)
    })?;
    for rec in recs {
        rec.classes.iter().for_each(|c| r.class(c));
    }
    one_tag_each(&reg)?;
    r.class("localisers of several threads");
    r.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- sequential use

fn sequential(s: &mut Source, r: &mut Rec) -> CaseResult {
    let all = super::all();
    // Mostly the properties of the code that differs with the feature.
    const FAVOUR: &[&str] = &["C03", "C04", "C14", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C26", "C28"];
    let p = if s.chance(2, 3) {
        let id = s.pick(FAVOUR);
        all.iter().find(|p| p.id == *id).unwrap()
    } else {
        let others: Vec<_> = all.iter().filter(|p| p.id != "C27").collect();
        others[s.below(others.len())]
    };
    let res = (p.run)(s, r);
    r.classes.clear();
    r.class(p.id);
    r.class("sequential");
    r.desc = format!("{} {}", p.id, r.desc);
    res.map_err(|m| format!("as {}: {m}", p.id))
}

fn c27(s: &mut Source, r: &mut Rec) -> CaseResult {
    match s.weighted(&[4, 3, 2, 6]) {
        0 => shared_registry(s, r),
        1 => shared_provider(s, r),
        2 => shared_localisers(s, r),
        _ => sequential(s, r),
    }
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C27",
    rule: "in the build with the feature sync: random operation lists for 2-4 threads that start together on one registry (repeated on 4 fresh registries), one Sqlite3 provider (on 2 fresh providers), or one provider through a localiser per thread, each answer judged in its thread against the sequential model and the registry afterwards; and sequential cases of all other properties in this build. Non-trivial: several threads share a tag or a provider, or the rule of the other property.",
    tape: 2800,
    quick: 1500,
    thorough: 60_000,
    level: "exploration",
    assumptions: &["schedules are those the operating system gives, sharpened by start barriers and random pauses", "Sqlite works"],
    run: c27,
    fixed: None,
}];
