//! In-memory localisation provider (an independent implementation of the provider contract).
use i18n_localiser::{CommandError, CommandRegistry, Localiser, LocaliserError};
use i18n_provider::{
    ComponentDetails, IdentifierDetails, LanguageData, LocalisationProviderTrait, ProviderError, RepositoryDetails,
};
use i18n_utility::{LanguageTag, LanguageTagRegistry, PlaceholderValue};
use std::collections::HashMap;
use crate::Rc;

/// component -> (default tag, identifier -> [(tag, string)])
#[derive(Clone, Default, Debug)]
pub struct Repo {
    pub components: std::collections::BTreeMap<String, Comp>,
}
#[derive(Clone, Default, Debug)]
pub struct Comp {
    pub default: String,
    pub strings: std::collections::BTreeMap<String, std::collections::BTreeMap<String, String>>,
}

impl Repo {
    pub fn single(component: &str, identifier: &str, tag: &str, string: &str) -> Repo {
        let mut r = Repo::default();
        r.put(component, identifier, tag, string);
        r.components.get_mut(component).unwrap().default = tag.to_string();
        r
    }
    pub fn put(&mut self, component: &str, identifier: &str, tag: &str, string: &str) {
        self.components
            .entry(component.to_string())
            .or_default()
            .strings
            .entry(identifier.to_string())
            .or_default()
            .insert(tag.to_string(), string.to_string());
    }
    /// The string for a tag: exact, else less specific tags (whole subtags removed).
    pub fn find(&self, component: &str, identifier: &str, tag: &str) -> Result<Option<(&str, &str)>, ()> {
        let c = self.components.get(component).ok_or(())?;
        let Some(m) = c.strings.get(identifier) else { return Ok(None) };
        let mut t = tag;
        loop {
            if let Some((k, v)) = m.get_key_value(t) {
                return Ok(Some((v.as_str(), k.as_str())));
            }
            match t.rfind('-') {
                None => return Ok(None),
                Some(p) => t = &t[..p],
            }
        }
    }
}

pub struct MemProvider {
    pub repo: Rc<Repo>,
    pub registry: Rc<LanguageTagRegistry>,
}

impl LocalisationProviderTrait for MemProvider {
    fn string(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &Rc<LanguageTag>,
    ) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        match self.repo.find(component, identifier, language_tag.as_str()) {
            Err(()) => Err(ProviderError::ComponentNotFound(component.to_string())),
            Ok(None) => Ok(None),
            Ok(Some((s, t))) => Ok(Some((s.to_string(), self.registry.tag(t).unwrap()))),
        }
    }
    fn string_exact_match(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &Rc<LanguageTag>,
    ) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        Ok(self.string(component, identifier, language_tag)?.filter(|x| x.1.as_str() == language_tag.as_str()))
    }
    fn strings(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &Rc<LanguageTag>,
    ) -> Result<Vec<(String, Rc<LanguageTag>)>, ProviderError> {
        Ok(self.string(component, identifier, language_tag)?.into_iter().collect())
    }
    fn identifier_details(&self, component: &str, identifier: &str) -> Result<IdentifierDetails, ProviderError> {
        let Some(c) = self.repo.components.get(component) else {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        };
        Ok(IdentifierDetails {
            languages: c
                .strings
                .get(identifier)
                .map(|m| m.keys().map(|k| self.registry.tag(k).unwrap()).collect())
                .unwrap_or_default(),
            default: self.registry.tag(&c.default).unwrap(),
        })
    }
    fn component_details(&self, component: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        let Some(c) = self.repo.components.get(component) else {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        };
        Ok(Rc::new(ComponentDetails {
            languages: HashMap::<Rc<LanguageTag>, LanguageData>::new(),
            default: self.registry.tag(&c.default).unwrap(),
            total_strings: c.strings.values().map(|m| m.len()).sum(),
        }))
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        Err(ProviderError::ComponentNotFound("unused".to_string()))
    }
}

pub type CmdFn = fn(Vec<PlaceholderValue>) -> Result<String, CommandError>;

pub fn show(v: &PlaceholderValue) -> String {
    match v {
        PlaceholderValue::String(s) => format!("S:{s}"),
        PlaceholderValue::Integer(i) => format!("I:{i}"),
        PlaceholderValue::Unsigned(i) => format!("U:{i}"),
        PlaceholderValue::Float(f) => format!("F:{f:?}"),
        PlaceholderValue::TaggedString(t) => format!("T:{}:{}", t.tag().as_str(), t.as_str()),
        PlaceholderValue::Localised(s, t) => format!("L:{}:{s}", t.as_str()),
        PlaceholderValue::LocalisationData(d) => format!("D:{}:{}", d.component, d.identifier),
        PlaceholderValue::FixedDecimal(d) => format!("X:{d}"),
        PlaceholderValue::DateTime(d) => format!("DT:{d:?}"),
        PlaceholderValue::Date(d) => format!("DA:{d:?}"),
        PlaceholderValue::Time(d) => format!("TI:{d:?}"),
    }
}

/// Shows every parameter with its kind.
pub fn dump(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(format!("<{}>", p.iter().map(show).collect::<Vec<_>>().join("|")))
}
/// Result full of grammar characters.
pub fn grammar(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(format!("{{a}}#`{{x decimal}}{}#{{n t}}", p.len()))
}
pub fn nothing(_: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Ok(String::new())
}
pub fn fail(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    Err(CommandError::InvalidType("fail".to_string(), p.len()))
}
pub fn swap(mut p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    p.reverse();
    dump(p)
}

thread_local! {
    static CLOCK: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// What the command `clock` gives from now on.
pub fn set_clock(t: &str) {
    CLOCK.with(|c| *c.borrow_mut() = t.to_string());
}

/// Depends on when it is executed.
pub fn clock(p: Vec<PlaceholderValue>) -> Result<String, CommandError> {
    let now = CLOCK.with(|c| c.borrow().clone());
    if now == "fail" {
        return fail(p);
    }
    Ok(format!("{now}{}", dump(p)?))
}

pub const COMMANDS: &[(&str, CmdFn)] = &[
    ("dump", dump),
    ("grammar", grammar),
    ("nothing", nothing),
    ("fail", fail),
    ("swap", swap),
    ("file_path", i18n_localiser::file_path),
    ("english_a_or_an", i18n_localiser::english_a_or_an),
    ("größe", dump),
    ("clock", clock),
];

pub fn commands() -> Rc<CommandRegistry> {
    let r = CommandRegistry::new();
    for (n, f) in COMMANDS {
        r.insert(n, *f).unwrap();
    }
    Rc::new(r)
}

pub fn localiser(repo: &Rc<Repo>, registry: &Rc<LanguageTagRegistry>, fallback: bool, caching: bool, tag: &str) -> Localiser {
    Localiser::try_new(
        &crate::gen::icu(),
        registry,
        Box::new(MemProvider { repo: Rc::clone(repo), registry: Rc::clone(registry) }),
        &commands(),
        fallback,
        caching,
        tag,
    )
    .expect("localiser")
}

pub type Formatted = Result<(Rc<String>, Rc<LanguageTag>), LocaliserError>;

/// Formats a single string for a language.
pub fn format_string(
    string: &str,
    tag: &str,
    values: &HashMap<String, PlaceholderValue>,
    registry: &Rc<LanguageTagRegistry>,
    caching: bool,
) -> Formatted {
    let repo = Rc::new(Repo::single("c", "i", tag, string));
    let l = localiser(&repo, registry, false, caching, "en");
    l.format("c", "i", values, &registry.tag(tag).unwrap(), None, None)
}
