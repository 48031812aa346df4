//! C30: the build with the features `icu_extended` and `logging` behaves as the default build.
use crate::engine::{CaseResult, Prop, Rec, Source};
use std::fmt::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Writes out every record, so that everything that is logged is evaluated.
struct Sink;

static RECORDS: AtomicUsize = AtomicUsize::new(0);

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        let mut t = String::new();
        let _ = write!(t, "{} {} {}", record.level(), record.target(), record.args());
        RECORDS.fetch_add(t.len().min(1), Ordering::Relaxed);
    }
    fn flush(&self) {}
}

static SINK: Sink = Sink;

fn c30(s: &mut Source, r: &mut Rec) -> CaseResult {
    // A log at each level, or none.
    let level = *s.pick(&[log::LevelFilter::Trace, log::LevelFilter::Debug, log::LevelFilter::Error, log::LevelFilter::Off]);
    let _ = log::set_logger(&SINK);
    let all = super::all();
    const FAVOUR: &[&str] = &["C26", "C26", "C28", "C20", "C24", "C18", "C17", "C06", "C15", "C11", "C10", "C10", "C03", "C09"];
    let p = if s.chance(2, 3) {
        let id = s.pick(FAVOUR);
        all.iter().find(|p| p.id == *id).unwrap()
    } else {
        let others: Vec<_> = all.iter().filter(|p| p.id != "C30").collect();
        others[s.below(others.len())]
    };
    let before = RECORDS.load(Ordering::Relaxed);
    log::set_max_level(level);
    let res = (p.run)(s, r);
    log::set_max_level(log::LevelFilter::Off);
    r.classes.clear();
    r.class(p.id);
    r.class_if(RECORDS.load(Ordering::Relaxed) > before, "something was logged");
    r.desc = format!("log level {level}, {} {}", p.id, r.desc);
    res.map_err(|m| format!("as {}: {m}", p.id))
}

pub const PROPS: &[Prop] = &[Prop {
    id: "C30",
    rule: "in the build with the features icu_extended and logging, with a logger that writes out every record at a random level: random cases of all other properties, with the oracles of those, some of them with tags that have extensions. Non-trivial: by the rule of the other property.",
    tape: 2800,
    quick: 14_000,
    thorough: 120_000,
    level: "exploration",
    assumptions: &["the oracles of the other properties", "tags with private-use subtags are looked up but not formatted (ICU has no plural rules for them)", "the features icu_blob and icu_fs need data files that are not available"],
    run: c30,
    fixed: None,
}];
