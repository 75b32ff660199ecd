//! Context processing (JSON-LD 1.1 API, section 4) and IRI expansion (5.2).
use super::json::*;
use iref::{Iri, IriRef};
pub use json_ld::syntax::ErrorCode as E;
use std::rc::Rc;

pub type R<T> = Result<T, E>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Dir {
    Ltr,
    Rtl,
}
impl Dir {
    pub fn as_str(self) -> &'static str {
        match self {
            Dir::Ltr => "ltr",
            Dir::Rtl => "rtl",
        }
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Def {
    pub iri: Option<String>,
    pub prefix: bool,
    pub protected: bool,
    pub reverse: bool,
    pub base_url: Option<String>,
    pub ctx: Option<J>,
    pub container: Vec<String>,
    pub dir: Option<Option<Dir>>,
    pub lang: Option<Option<String>>,
    pub index: Option<String>,
    pub nest: Option<String>,
    pub ty: Option<String>,
}
impl Def {
    pub fn has(&self, c: &str) -> bool {
        self.container.iter().any(|x| x == c)
    }
}

#[derive(Clone, Default)]
pub struct Ctx {
    pub terms: Vec<(String, Def)>,
    pub base: Option<String>,
    pub base_url: Option<String>,
    pub vocab: Option<String>,
    pub lang: Option<String>,
    pub dir: Option<Dir>,
    pub prev: Option<Rc<Ctx>>,
}
impl Ctx {
    pub fn new(base: Option<&str>) -> Ctx {
        Ctx { base: base.map(|s| s.to_string()), base_url: base.map(|s| s.to_string()), ..Ctx::default() }
    }
    pub fn def(&self, t: &str) -> Option<&Def> {
        self.terms.iter().find(|e| e.0 == t).map(|e| &e.1)
    }
    fn put(&mut self, t: &str, d: Def) {
        self.take(t);
        self.terms.push((t.to_string(), d));
    }
    fn take(&mut self, t: &str) -> Option<Def> {
        let i = self.terms.iter().position(|e| e.0 == t)?;
        Some(self.terms.remove(i).1)
    }
}

/// What the algorithms may consult.
pub struct Env {
    pub mode10: bool,
    /// Documents the loader knows.
    pub docs: Vec<(String, J)>,
    /// Set when the specification does not say what to do with the input.
    pub unspecified: std::cell::Cell<bool>,
    /// The specification, taken literally, loses something.
    pub lossy: std::cell::Cell<bool>,
    /// Take it literally.
    pub literal: bool,
}
impl Env {
    pub fn new(docs: &[(String, J)], mode10: bool) -> Env {
        Env { mode10, docs: docs.to_vec(), unspecified: Default::default(), lossy: Default::default(), literal: false }
    }
    /// Whether to do what the specification literally says, which loses something.
    pub fn loses(&self) -> bool {
        self.lossy.set(true);
        self.literal
    }
    pub fn unspec(&self) {
        self.unspecified.set(true)
    }
}

pub const KEYWORDS: [&str; 23] = [
    "@base", "@container", "@context", "@default", "@direction", "@graph", "@id", "@import", "@included", "@index",
    "@json", "@language", "@list", "@nest", "@none", "@prefix", "@propagate", "@protected", "@reverse", "@set",
    "@type", "@value", "@version",
];
pub fn is_keyword(s: &str) -> bool {
    s.starts_with('@') && (KEYWORDS.iter().any(|k| *k == s) || s == "@vocab")
}
pub fn keyword_form(s: &str) -> bool {
    s.len() > 1 && s.as_bytes()[0] == b'@' && s.as_bytes()[1..].iter().all(|b| b.is_ascii_alphabetic())
}
pub fn is_iri(s: &str) -> bool {
    Iri::new(s).is_ok()
}
pub fn is_blank(s: &str) -> bool {
    s.starts_with("_:")
}
pub fn resolve(base: Option<&str>, s: &str) -> String {
    match base {
        None => s.to_string(),
        Some(b) => match (Iri::new(b), IriRef::new(s)) {
            (Ok(b), Ok(r)) => r.resolved(b).to_string(),
            _ => s.to_string(),
        },
    }
}
/// Position of the first colon after the first character.
fn colon(s: &str) -> Option<usize> {
    s.as_bytes().iter().skip(1).position(|b| *b == b':').map(|i| i + 1)
}

const LOCAL_KEYS: [&str; 8] =
    ["@base", "@direction", "@import", "@language", "@propagate", "@protected", "@version", "@vocab"];

#[derive(Clone)]
pub struct Opt {
    pub over: bool,
    pub propagate: bool,
    pub validate: bool,
    pub remote: Vec<String>,
}
impl Opt {
    pub fn new() -> Opt {
        Opt { over: false, propagate: true, validate: true, remote: vec![] }
    }
}

impl Env {
    /// The document at an IRI, and the IRI it is found at in the end: a name
    /// `a>b` stands for a document at `a` that redirects to `b`.
    pub fn load(&self, u: &str) -> Option<(&J, &str)> {
        let find = |e: &&(String, J)| e.0.split('>').next() == Some(u);
        self.docs.iter().find(find).map(|e| (&e.1, e.0.rsplit('>').next().unwrap()))
    }

    pub fn process(&self, active: &Ctx, local: &J, base: Option<&str>, o: Opt) -> R<Ctx> {
        let mut result = active.clone();
        let mut propagate = o.propagate;
        if let Some(p) = local.get("@propagate") {
            if let J::Bool(b) = p {
                propagate = *b
            }
        }
        if !propagate && result.prev.is_none() {
            result.prev = Some(Rc::new(active.clone()));
        }
        for c in local.as_items() {
            match c {
                J::Null => {
                    if !o.over && result.terms.iter().any(|t| t.1.protected) {
                        return Err(E::InvalidContextNullification);
                    }
                    let prev = if propagate { None } else { Some(Rc::new(result)) };
                    result = Ctx {
                        base: active.base_url.clone(),
                        base_url: active.base_url.clone(),
                        prev,
                        ..Ctx::default()
                    };
                }
                J::Str(u) => {
                    let u = match (base, IriRef::new(u)) {
                        (Some(b), Ok(_)) => resolve(Some(b), u),
                        _ => u.clone(),
                    };
                    if !is_iri(&u) {
                        return Err(E::LoadingDocumentFailed);
                    }
                    if o.remote.contains(&u) {
                        if !o.validate {
                            continue;
                        }
                        self.unspec();
                        return Err(E::ContextOverflow);
                    }
                    let mut remote = o.remote.clone();
                    remote.push(u.clone());
                    let (doc, url) = self.load(&u).ok_or(E::LoadingRemoteContextFailed)?;
                    if !doc.is_obj() {
                        return Err(E::InvalidRemoteContext);
                    }
                    let ctx = doc.get("@context").ok_or(E::InvalidRemoteContext)?;
                    result = self.process(
                        &result,
                        ctx,
                        Some(url),
                        Opt { over: false, propagate: true, validate: o.validate, remote },
                    )?;
                }
                J::Obj(_) => result = self.definition(result, c, base, &o)?,
                _ => return Err(E::InvalidLocalContext),
            }
        }
        Ok(result)
    }

    fn definition(&self, mut result: Ctx, c: &J, base: Option<&str>, o: &Opt) -> R<Ctx> {
        let mut merged = c.clone();
        if let Some(v) = c.get("@version") {
            match v {
                J::Num(n) if n == "1.1" => (),
                _ => return Err(E::InvalidVersionValue),
            }
            if self.mode10 {
                return Err(E::ProcessingModeConflict);
            }
        }
        if let Some(i) = c.get("@import") {
            if self.mode10 {
                return Err(E::InvalidContextEntry);
            }
            let i = i.str().ok_or(E::InvalidImportValue)?;
            let u = resolve(base, i);
            let (doc, _) = self.load(&u).ok_or(E::LoadingRemoteContextFailed)?;
            let ic = match doc.get("@context") {
                Some(x @ J::Obj(_)) => x,
                _ => return Err(E::InvalidRemoteContext),
            };
            if ic.has("@import") {
                return Err(E::InvalidContextEntry);
            }
            merged = ic.clone();
            for (k, v) in c.obj().unwrap() {
                if k != "@import" {
                    merged.set(k, v.clone());
                }
            }
        }
        let c = &merged;
        if let Some(b) = c.get("@base") {
            if o.remote.is_empty() {
                match b {
                    J::Null => result.base = None,
                    J::Str(b) if is_iri(b) => result.base = Some(b.clone()),
                    J::Str(b) if result.base.is_some() => {
                        result.base = Some(resolve(result.base.as_deref(), b));
                        if !is_iri(result.base.as_ref().unwrap()) {
                            return Err(E::InvalidBaseIri);
                        }
                    }
                    _ => return Err(E::InvalidBaseIri),
                }
            }
        }
        if let Some(v) = c.get("@vocab") {
            match v {
                J::Null => result.vocab = None,
                J::Str(v) => {
                    if self.mode10 && !is_iri(v) && !is_blank(v) {
                        self.unspec();
                    }
                    let x = self.expand_iri(&result, v, true, true);
                    match x {
                        Some(x) if is_iri(&x) || is_blank(&x) => result.vocab = Some(x),
                        _ => {
                            if v.is_empty() {
                                // No base IRI to resolve it against.
                                self.unspec()
                            }
                            return Err(E::InvalidVocabMapping);
                        }
                    }
                }
                _ => return Err(E::InvalidVocabMapping),
            }
        }
        if let Some(l) = c.get("@language") {
            match l {
                J::Null => result.lang = None,
                J::Str(l) => result.lang = Some(l.clone()),
                _ => return Err(E::InvalidDefaultLanguage),
            }
        }
        if let Some(d) = c.get("@direction") {
            if self.mode10 {
                return Err(E::InvalidContextEntry);
            }
            result.dir = dir(d)?;
        }
        if let Some(p) = c.get("@propagate") {
            if self.mode10 {
                return Err(E::InvalidContextEntry);
            }
            if !matches!(p, J::Bool(_)) {
                return Err(E::InvalidPropagateValue);
            }
        }
        let prot = match c.get("@protected") {
            None => false,
            Some(J::Bool(b)) => *b,
            _ => return Err(E::InvalidProtectedValue),
        };
        let mut cr = Creator { env: self, local: c, defined: vec![], base, prot, o: o.clone() };
        for (k, _) in c.obj().unwrap() {
            if !LOCAL_KEYS.contains(&k.as_str()) {
                cr.create(&mut result, k)?;
            }
        }
        Ok(result)
    }

    /// IRI expansion with no local context.
    pub fn expand_iri(&self, a: &Ctx, v: &str, vocab: bool, doc: bool) -> Option<String> {
        if is_keyword(v) {
            return Some(v.to_string());
        }
        if keyword_form(v) {
            return None;
        }
        if let Some(d) = a.def(v) {
            if let Some(i) = &d.iri {
                if is_keyword(i) {
                    return Some(i.clone());
                }
            }
            if vocab {
                return d.iri.clone();
            }
        }
        if let Some(i) = colon(v) {
            let (p, s) = (&v[..i], &v[i + 1..]);
            if p == "_" && rdf_types::BlankId::new(v).is_err() {
                // Not a blank node identifier.
                self.unspec()
            }
            if p == "_" || s.starts_with("//") {
                return Some(v.to_string());
            }
            if let Some(d) = a.def(p) {
                if let (Some(iri), true) = (&d.iri, d.prefix) {
                    return Some(format2(iri, s));
                }
            }
            if is_iri(v) {
                return Some(v.to_string());
            }
        }
        if vocab {
            if let Some(x) = &a.vocab {
                return Some(format2(x, v));
            }
        }
        if doc {
            return Some(resolve(a.base.as_deref(), v));
        }
        Some(v.to_string())
    }
}

pub fn format2(a: &str, b: &str) -> String {
    let mut s = String::from(a);
    s.push_str(b);
    s
}

pub fn dir(d: &J) -> R<Option<Dir>> {
    match d {
        J::Null => Ok(None),
        J::Str(s) if s == "ltr" => Ok(Some(Dir::Ltr)),
        J::Str(s) if s == "rtl" => Ok(Some(Dir::Rtl)),
        _ => Err(E::InvalidBaseDirection),
    }
}

struct Creator<'a> {
    env: &'a Env,
    local: &'a J,
    defined: Vec<(String, bool)>,
    base: Option<&'a str>,
    prot: bool,
    o: Opt,
}

impl Creator<'_> {
    fn state(&self, t: &str) -> Option<bool> {
        self.defined.iter().find(|e| e.0 == t).map(|e| e.1)
    }
    fn mark(&mut self, t: &str, b: bool) {
        for e in self.defined.iter_mut() {
            if e.0 == t {
                e.1 = b;
                return;
            }
        }
        self.defined.push((t.to_string(), b));
    }

    fn expand_iri(&mut self, a: &mut Ctx, v: &str) -> R<Option<String>> {
        if is_keyword(v) {
            return Ok(Some(v.to_string()));
        }
        if keyword_form(v) {
            return Ok(None);
        }
        if self.local.has(v) && self.state(v) != Some(true) {
            self.dependency(v);
            self.create(a, v)?;
        }
        if let Some(d) = a.def(v) {
            return Ok(d.iri.clone());
        }
        if let Some(i) = colon(v) {
            let (p, s) = (&v[..i], &v[i + 1..]);
            if p == "_" && rdf_types::BlankId::new(v).is_err() {
                // Not a blank node identifier.
                self.env.unspec()
            }
            if p == "_" || s.starts_with("//") {
                return Ok(Some(v.to_string()));
            }
            if self.local.has(p) && self.state(p) != Some(true) {
                self.dependency(p);
                self.create(a, p)?;
            }
            if let Some(d) = a.def(p) {
                if let (Some(iri), true) = (&d.iri, d.prefix) {
                    return Ok(Some(format2(iri, s)));
                }
            }
            if is_iri(v) {
                return Ok(Some(v.to_string()));
            }
        }
        if let Some(x) = &a.vocab {
            return Ok(Some(format2(x, v)));
        }
        Ok(Some(v.to_string()))
    }

    /// Terms defined because another one depends on them get the default
    /// options of the algorithm; implementations differ on this.
    fn dependency(&self, t: &str) {
        if self.state(t).is_some() {
            return;
        }
        let scoped = self.local.get(t).map_or(false, |v| v.has("@context"));
        if self.prot || scoped || self.o.over {
            self.env.unspec()
        }
    }

    fn create(&mut self, a: &mut Ctx, term: &str) -> R<()> {
        match self.state(term) {
            Some(true) => return Ok(()),
            Some(false) => return Err(E::CyclicIriMapping),
            None => (),
        }
        if term.is_empty() {
            return Err(E::InvalidTermDefinition);
        }
        self.mark(term, false);
        let value = self.local.get(term).unwrap().clone();
        let mode10 = self.env.mode10;
        if term == "@type" {
            if mode10 {
                return Err(E::KeywordRedefinition);
            }
            let ok = match &value {
                J::Obj(o) => {
                    !o.is_empty()
                        && o.iter().all(|(k, v)| {
                            k == "@protected" && matches!(v, J::Bool(_))
                                || k == "@container" && *v == s("@set")
                        })
                }
                _ => false,
            };
            if !ok {
                return Err(E::KeywordRedefinition);
            }
        } else if is_keyword(term) {
            return Err(E::KeywordRedefinition);
        } else if keyword_form(term) {
            return Ok(());
        }
        if is_blank(term) {
            // Such terms are not allowed by the grammar.
            self.env.unspec()
        }
        let previous = a.take(term);
        let mut simple = false;
        let value = match value {
            J::Null => J::Obj(vec![("@id".to_string(), J::Null)]),
            J::Str(x) => {
                simple = true;
                J::Obj(vec![("@id".to_string(), J::Str(x))])
            }
            x @ J::Obj(_) => x,
            _ => return Err(E::InvalidTermDefinition),
        };
        let mut d = Def { protected: self.prot, ..Def::default() };
        if let Some(p) = value.get("@protected") {
            if mode10 {
                return Err(E::InvalidTermDefinition);
            }
            match p {
                J::Bool(b) => d.protected = *b,
                _ => return Err(E::InvalidProtectedValue),
            }
        }
        if let Some(t) = value.get("@type") {
            let t = t.str().ok_or(E::InvalidTypeMapping)?;
            let t = self.expand_iri(a, t)?.ok_or(E::InvalidTypeMapping)?;
            if t == "@json" || t == "@none" {
                if mode10 {
                    return Err(E::InvalidTypeMapping);
                }
            } else if t != "@id" && t != "@vocab" && !is_iri(&t) {
                return Err(E::InvalidTypeMapping);
            }
            d.ty = Some(t);
        }
        if let Some(r) = value.get("@reverse") {
            if value.has("@id") || value.has("@nest") {
                return Err(E::InvalidReverseProperty);
            }
            let r = r.str().ok_or(E::InvalidIriMapping)?;
            if keyword_form(r) {
                return Ok(());
            }
            let i = self.expand_iri(a, r)?.ok_or(E::InvalidIriMapping)?;
            if !is_iri(&i) && !is_blank(&i) {
                return Err(E::InvalidIriMapping);
            }
            d.iri = Some(i);
            if let Some(c) = value.get("@container") {
                match c {
                    J::Null => (),
                    J::Str(c) if c == "@set" || c == "@index" => d.container = vec![c.clone()],
                    _ => return Err(E::InvalidReverseProperty),
                }
            }
            d.reverse = true;
            return self.finish(a, term, d, previous, &value, simple);
        }
        let id = value.get("@id");
        let has_colon = colon(term).is_some();
        if id.is_some() && id.unwrap().str() != Some(term) {
            let id = id.unwrap();
            if !id.is_null() {
                let id = id.str().ok_or(E::InvalidIriMapping)?;
                if keyword_form(id) && !is_keyword(id) {
                    return Ok(());
                }
                let i = self.expand_iri(a, id)?;
                let i = match i {
                    Some(i) if is_keyword(&i) || is_iri(&i) || is_blank(&i) => i,
                    _ => return Err(E::InvalidIriMapping),
                };
                if i == "@context" {
                    return Err(E::InvalidKeywordAlias);
                }
                let mid_colon = term.len() > 2 && term.as_bytes()[1..term.len() - 1].contains(&b':');
                if mid_colon || term.contains('/') {
                    self.mark(term, true);
                    if self.expand_iri(a, term)?.as_deref() != Some(i.as_str()) {
                        return Err(E::InvalidIriMapping);
                    }
                }
                if !term.contains(':') && !term.contains('/') && simple {
                    let last = i.as_bytes()[i.len() - 1];
                    if b":/?#[]@".contains(&last) || is_blank(&i) {
                        d.prefix = true;
                    }
                }
                d.iri = Some(i);
            }
        } else if has_colon {
            let i = colon(term).unwrap();
            let (p, suffix) = (&term[..i], &term[i + 1..]);
            let compact = p != "_" && !suffix.starts_with("//");
            if compact && self.local.has(p) {
                self.dependency(p);
                self.create(a, p)?;
            }
            match (compact, a.def(p)) {
                (true, Some(pd)) => match &pd.iri {
                    Some(iri) => d.iri = Some(format2(iri, suffix)),
                    None => {
                        self.env.unspec();
                        d.iri = None
                    }
                },
                _ => d.iri = Some(term.to_string()),
            }
        } else if term.contains('/') {
            match self.env.expand_iri(a, term, true, false) {
                Some(i) if is_iri(&i) => d.iri = Some(i),
                _ => return Err(E::InvalidIriMapping),
            }
        } else if term == "@type" {
            d.iri = Some("@type".to_string());
        } else if let Some(v) = &a.vocab {
            d.iri = Some(format2(v, term));
        } else {
            return Err(E::InvalidIriMapping);
        }
        if let Some(c) = value.get("@container") {
            if c.is_null() || *c == J::Arr(vec![]) {
                self.env.unspec()
            }
            let cs: Vec<&J> = c.as_items();
            let mut v: Vec<String> = vec![];
            for x in &cs {
                v.push(x.str().ok_or(E::InvalidContainerMapping)?.to_string());
            }
            let known = |x: &String| {
                ["@graph", "@id", "@index", "@language", "@list", "@set", "@type"].contains(&x.as_str())
            };
            if !v.iter().all(known) {
                return Err(E::InvalidContainerMapping);
            }
            let has = |x: &str| v.iter().any(|y| y == x);
            let n = v.len();
            let ok = match n {
                0 => false,
                1 => true,
                _ if has("@graph") => {
                    let idx = has("@id") as usize + has("@index") as usize;
                    idx <= 1 && n == 1 + idx + has("@set") as usize
                }
                _ => {
                    n == 2
                        && has("@set")
                        && (has("@index") || has("@graph") || has("@id") || has("@type") || has("@language"))
                }
            };
            if !ok {
                return Err(E::InvalidContainerMapping);
            }
            if mode10 && (c.is_arr() || has("@graph") || has("@id") || has("@type")) {
                return Err(E::InvalidContainerMapping);
            }
            d.container = v.clone();
            if d.has("@type") {
                match d.ty.as_deref() {
                    None => d.ty = Some("@id".to_string()),
                    Some("@id") | Some("@vocab") => (),
                    _ => return Err(E::InvalidTypeMapping),
                }
            }
        }
        self.finish(a, term, d, previous, &value, simple)
    }

    fn finish(
        &mut self,
        a: &mut Ctx,
        term: &str,
        mut d: Def,
        previous: Option<Def>,
        value: &J,
        _simple: bool,
    ) -> R<()> {
        let mode10 = self.env.mode10;
        if !d.reverse {
            if let Some(i) = value.get("@index") {
                if mode10 || !d.has("@index") {
                    return Err(E::InvalidTermDefinition);
                }
                let i = i.str().ok_or(E::InvalidTermDefinition)?;
                match self.expand_iri(a, i)? {
                    Some(x) if is_iri(&x) => (),
                    _ => return Err(E::InvalidTermDefinition),
                }
                d.index = Some(i.to_string());
            }
            if let Some(c) = value.get("@context") {
                if mode10 {
                    return Err(E::InvalidTermDefinition);
                }
                let o = Opt { over: true, propagate: true, validate: false, remote: self.o.remote.clone() };
                if self.env.process(a, c, self.base, o).is_err() {
                    return Err(E::InvalidScopedContext);
                }
                d.ctx = Some(c.clone());
                d.base_url = self.base.map(|s| s.to_string());
            }
            if !value.has("@type") {
                if let Some(l) = value.get("@language") {
                    d.lang = Some(match l {
                        J::Null => None,
                        J::Str(l) => Some(l.clone()),
                        _ => return Err(E::InvalidLanguageMapping),
                    });
                }
                if let Some(x) = value.get("@direction") {
                    d.dir = Some(dir(x)?);
                }
            }
            if let Some(n) = value.get("@nest") {
                if mode10 {
                    return Err(E::InvalidTermDefinition);
                }
                match n {
                    J::Str(n) if !is_keyword(n) || n == "@nest" => d.nest = Some(n.clone()),
                    _ => return Err(E::InvalidNestValue),
                }
            }
            if let Some(p) = value.get("@prefix") {
                if mode10 || term.contains(':') || term.contains('/') {
                    return Err(E::InvalidTermDefinition);
                }
                match p {
                    J::Bool(p) => d.prefix = *p,
                    _ => return Err(E::InvalidPrefixValue),
                }
                if let (true, Some(i)) = (d.prefix, &d.iri) {
                    if is_keyword(i) {
                        return Err(E::InvalidTermDefinition);
                    }
                }
            }
            for (k, _) in value.obj().unwrap() {
                if ![
                    "@id", "@reverse", "@container", "@context", "@direction", "@index", "@language", "@nest",
                    "@prefix", "@protected", "@type",
                ]
                .contains(&k.as_str())
                {
                    return Err(E::InvalidTermDefinition);
                }
            }
        }
        if let (false, Some(p)) = (self.o.over, previous) {
            if p.protected {
                if d.reverse {
                    self.env.unspec()
                }
                let mut x = d.clone();
                x.protected = true;
                if x != p {
                    return Err(E::ProtectedTermRedefinition);
                }
                d = p;
            }
        }
        a.put(term, d);
        self.mark(term, true);
        Ok(())
    }
}
