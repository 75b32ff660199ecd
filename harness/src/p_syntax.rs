//! Reading, writing and printing of contexts and documents.
use crate::b::*;
use crate::glue;
use crate::p_expand as pe;
use crate::refimpl::json::*;
use crate::sym;
use json_ld::syntax::context::Context;
use contextual::WithContext;
use json_ld::syntax::{CompactIri, ContainerKind, Direction, IntoJson, Keyword, LenientLangTagBuf, Parse, Print, TryFromJson, Value};
use json_ld::Options;
use json_syntax::print;

fn formats() -> print::Options {
    match sym::choice(5) {
        0 => print::Options::pretty(),
        1 => print::Options::compact(),
        2 => print::Options::inline(),
        k => {
            let mut o = print::Options::pretty();
            let l = if k == 3 { print::Limit::Always } else { print::Limit::ItemOrWidth(2, 12) };
            o.array_limit = Some(l);
            o.object_limit = Some(l);
            o
        }
    }
}
/// What is printed is the given JSON, laid out as JSON is.
fn printed(text: &str, want: &J, f: print::Options) {
    #[cfg(feature = "replay")]
    println!("text {text}");
    match Value::parse_str(text) {
        Ok((v, _)) => {
            sym::check(json_eq(&J::from_value(&v), want), "what is printed differs");
            let again = v.print_with(f).to_string();
            #[cfg(feature = "replay")]
            println!("json {again}");
            sym::check(again == text, "what is printed is not laid out as asked")
        }
        Err(_) => sym::fail("what is printed is not JSON"),
    }
}
fn context(j: &J) {
    let f = formats();
    context_in(j, f)
}
fn context_in(j: &J, f: print::Options) {
    #[cfg(feature = "replay")]
    println!("ctx  {}", j.print());
    let c = match Context::try_from_json(glue::val(j)) {
        Ok(c) => c,
        Err(_) => return sym::fail("refuses a context"),
    };
    sym::cover("read");
    let v = c.clone().into_json();
    let got = J::from_value(&v);
    #[cfg(feature = "replay")]
    println!("json {}", got.print());
    sym::check(json_eq(&got, j), "the JSON of a context is not what was read");
    match Context::try_from_json(v) {
        Ok(d) => sym::check(c == d, "a context differs from itself read again"),
        Err(_) => sym::fail("refuses the JSON of a context"),
    }
    match sym::choice(2) {
        0 => printed(&c.print_with(f.clone()).to_string(), j, f),
        _ => {
            match json_syntax::to_value(&c) {
                Ok(v) => sym::check(json_eq(&J::from_value(&v), j), "a context serialized is not what was read"),
                Err(_) => sym::fail("a context cannot be serialized"),
            }
            match json_syntax::from_value::<Context>(glue::val(j)) {
                Ok(d) => sym::check(c == d, "a context deserialized is not what was read"),
                Err(_) => sym::fail("a context cannot be deserialized"),
            }
        }
    }
}
fn name() -> J {
    match sym::choice(4) {
        0 => t("http://e.x/a"),
        1 => t(""),
        2 => J::Str(sy("?a?", b"a\"\\\n:@")),
        _ => t("\u{e9}\u{1f600}\u{7f}"),
    }
}
fn scoped() -> J {
    pick(&[
        N,
        t("ctx"),
        o(&[]),
        o(&[("@vocab", N)]),
        a(&[]),
        a(&[N, o(&[("a", t("b")), ("c", o(&[("@context", a(&[o(&[("d", N)])]))]))]), t("http://e.x/c")]),
    ])
}
fn term_entry(k: usize, name: fn() -> J) -> (&'static str, J) {
    match k {
        0 => ("@id", pick(&[N, t("@type"), t("@vocabx"), name()])),
        1 => ("@type", pick(&[N, t("@id"), t("@json"), t("@none"), t("@vocab"), t("@list"), name()])),
        2 => ("@context", scoped()),
        3 => ("@reverse", name()),
        4 => ("@index", pick(&[t("@index"), name()])),
        5 => ("@language", pick(&[N, t("en"), t("EN-us"), t("not a tag\t")])),
        6 => ("@direction", pick(&[N, t("ltr"), t("rtl")])),
        7 => (
            "@container",
            pick(&[N, t("@set"), a(&[t("@set")]), a(&[t("@graph"), t("@id"), t("@set")]), a(&[]), t("@list"), t("@type"), t("@language"), t("@index")]),
        ),
        8 => ("@nest", pick(&[t("@nest"), name()])),
        9 => ("@prefix", pick(&[T, F])),
        10 => ("@propagate", pick(&[T, F])),
        _ => ("@protected", pick(&[T, F])),
    }
}
fn definition_entry(k: usize) -> (&'static str, J) {
    match k {
        0 => ("@base", pick(&[N, t(""), t("a/b?c#d"), t("http://e.x/\u{e9}")])),
        1 => ("@import", pick(&[t("i"), t("http://e.x/i")])),
        2 => ("@language", pick(&[N, t("en"), t("EN-us"), t("not a tag\t")])),
        3 => ("@direction", pick(&[N, t("ltr"), t("rtl")])),
        4 => ("@propagate", pick(&[T, F])),
        5 => ("@protected", pick(&[T, F])),
        6 => (
            "@type",
            pick(&[o(&[("@container", t("@set"))]), o(&[("@container", t("@set")), ("@protected", T)]), o(&[("@protected", F)])]),
        ),
        7 => ("@version", n("1.1")),
        8 => ("@vocab", pick(&[N, name()])),
        9 => ("t", pick(&[N, name(), o(&[]), o(&[("@id", t("x")), ("@prefix", T)])])),
        _ => ("u", o(&[("@context", scoped())])),
    }
}
fn place(c: J) -> J {
    match sym::choice(4) {
        0 => c,
        1 => a(&[c]),
        2 => a(&[N, c, t("http://e.x/c")]),
        _ => o(&[("p", o(&[("@context", c), ("@protected", T)])), ("q", t("r"))]),
    }
}
/// Context definitions.
#[no_mangle]
pub extern "C" fn h_syntax_context() {
    let k = sym::choice(11);
    let (k1, v1) = definition_entry(k);
    let mut d = o(&[(k1, v1)]);
    if sym::choice(2) == 1 {
        let l = sym::choice(11);
        if l > k {
            let (k2, v2) = definition_entry(l);
            d.set(k2, v2)
        }
    }
    context(&place(d))
}
/// Term definitions.
#[no_mangle]
pub extern "C" fn h_syntax_terms() {
    let k = sym::choice(12);
    if sym::choice(2) == 1 {
        let plain = || t("http://e.x/a");
        let l = sym::choice(12);
        if l <= k {
            return;
        }
        let (k1, v1) = term_entry(k, plain);
        let (k2, v2) = term_entry(l, plain);
        return context_in(&o(&[("t", o(&[(k1, v1), (k2, v2)]))]), print::Options::pretty());
    }
    let (k1, v1) = term_entry(k, name);
    let key = match sym::choice(3) {
        0 => "t".to_string(),
        1 => sy("?b", b"a\"\\\t:@"),
        _ => "".to_string(),
    };
    context(&o(&[(&key, o(&[(k1, v1)]))]))
}

struct Bytes(Vec<u8>);
impl std::hash::Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hash(x: &impl std::hash::Hash) -> Vec<u8> {
    let mut h = Bytes(vec![]);
    x.hash(&mut h);
    h.0
}
fn kinds() -> [(&'static str, ContainerKind); 7] {
    use ContainerKind::*;
    [("@graph", Graph), ("@id", Id), ("@index", Index), ("@language", Language), ("@list", List), ("@set", Set), ("@type", Type)]
}
/// The container mappings the grammar allows.
fn allowed(m: &[bool; 7]) -> bool {
    let [graph, id, index, language, list, set, ty] = *m;
    let n = m.iter().filter(|x| **x).count();
    match n {
        0 | 1 => true,
        2 => graph && (id || index || set) || set && !list,
        3 => graph && set && (id || index) && !language && !list && !ty,
        _ => false,
    }
}
/// Names: keywords, language tags, compact IRIs, identifiers, containers.
#[no_mangle]
pub extern "C" fn h_syntax_names() {
    match sym::choice(6) {
        0 => {
            let n = 1 + sym::choice(3);
            let a = sy(&"???"[..n], b"aAzZ@[-1");
            let b = sy(&"???"[..1 + sym::choice(3)], b"aAzZ@[-1");
            let same = a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(a, b)| a.to_ascii_lowercase() == b.to_ascii_lowercase());
            let (x, y) = (LenientLangTagBuf::from(a), LenientLangTagBuf::from(b));
            sym::cover("named");
            sym::check((x == y) == same, "language tags are not compared without regard to case");
            sym::check(x.cmp(&y) == y.cmp(&x).reverse(), "the order of language tags is not an order");
            sym::check((x.cmp(&y) == std::cmp::Ordering::Equal) == same, "the order of language tags is not consistent with their equality");
            sym::check(!same || hash(&x) == hash(&y), "equal language tags hash differently");
        }
        1 => {
            let keywords = [
                "@base", "@container", "@context", "@direction", "@graph", "@id", "@import", "@included", "@index", "@json", "@language",
                "@list", "@nest", "@none", "@prefix", "@propagate", "@protected", "@reverse", "@set", "@type", "@value", "@version", "@vocab",
            ];
            let k = pick(&keywords);
            sym::cover("named");
            match Keyword::try_from(k) {
                Ok(x) => {
                    sym::check(x.into_str() == k, "a keyword is taken for another");
                    sym::check(x.to_string() == k, "a keyword is displayed as another");
                }
                Err(_) => sym::fail("a keyword is not known"),
            }
            // One byte changed, or one added.
            let at = sym::choice(k.len() + 1);
            let mut w = k.as_bytes().to_vec();
            let b = sym::byte_in(b"aegilostvxE@: ");
            if at == k.len() {
                w.push(b)
            } else {
                w[at] = b
            }
            let w = String::from_utf8(w).unwrap();
            sym::check(
                json_ld::syntax::is_keyword(&w) == keywords.iter().any(|k| *k == w),
                "a string that is no keyword is taken for one",
            );
            let like = w.as_bytes()[0] == b'@' && w.bytes().skip(1).all(|c| c.is_ascii_alphabetic());
            sym::check(json_ld::syntax::is_keyword_like(&w) == like, "keyword-like strings are misjudged");
        }
        2 => {
            let w = sy(&"?????"[..sym::choice(6)], b"a_:/@");
            sym::cover("named");
            let like = w.len() > 1 && w.as_bytes()[0] == b'@' && w.bytes().skip(1).all(|c| c.is_ascii_alphabetic());
            sym::check(json_ld::syntax::is_keyword_like(&w) == like, "keyword-like strings are misjudged");
            let colon = w.bytes().position(|c| c == b':');
            let is = match colon {
                Some(i) => &w[..i] != "_" && !w[i + 1..].starts_with("//") && iref::IriRef::new(&w).is_ok(),
                None => false,
            };
            match CompactIri::new(&w) {
                Ok(c) => {
                    sym::check(is, "a string that is no compact IRI is taken for one");
                    let i = colon.unwrap();
                    sym::check(c.prefix() == &w[..i] && c.suffix() == &w[i + 1..], "the parts of a compact IRI are wrong");
                }
                Err(_) => sym::check(!is, "a compact IRI is not taken for one"),
            }
        }
        3 => {
            let w = sy(&"?:????"[..sym::choice(7)], b"a_:/ -");
            sym::cover("named");
            let id = <json_ld::Id>::from_string(w.clone());
            let (iri, blank) = (iref::Iri::new(&w).is_ok(), rdf_types::BlankId::new(&w).is_ok());
            sym::check(id.as_str() == w && id.to_string() == w, "an identifier is not what it was read from");
            sym::check(id.is_iri() == iri && id.is_blank() == (!iri && blank), "an identifier is not of the kind it was read from");
            sym::check(id == <json_ld::Id>::from_string_in(&mut (), w.clone()), "an identifier read with a vocabulary differs");
            match <json_ld::Id as json_ld::object::TryFromJson<iref::IriBuf, rdf_types::BlankIdBuf>>::try_from_json_in(&mut (), Value::String(w.as_str().into())) {
                Ok(x) => sym::check(id == x, "an identifier read from JSON differs"),
                Err(_) => sym::fail("refuses an identifier"),
            }
            let term: json_ld::Term = json_ld::Term::Id(id.clone());
            sym::check(term == id && id == term && term.as_str() == w, "an identifier differs from itself as a term");
        }
        4 => {
            let n = sym::choice(5);
            let mut m = [false; 7];
            let mut c = vec![];
            let mut core = json_ld::Container::new();
            let mut ok = true;
            for _ in 0..n {
                let k = sym::choice(7);
                m[k] = true;
                c.push(kinds()[k].1);
                ok &= core.add(kinds()[k].1);
            }
            sym::cover("named");
            let want = allowed(&m);
            sym::check(ok == want, "container mappings that can be combined are misjudged");
            match json_ld::Container::from(c.iter()) {
                Ok(x) => {
                    sym::check(want, "container mappings that cannot be combined are");
                    sym::check(x == core, "container mappings are combined in two ways");
                    for (i, (_, k)) in kinds().iter().enumerate() {
                        sym::check(x.contains(*k) == m[i], "a container mapping is lost or added");
                    }
                    sym::check(x.len() == m.iter().filter(|x| **x).count() && x.is_empty() == (n == 0), "container mappings are miscounted");
                    let back = match x.into_syntax() {
                        Some(s) => json_ld::Container::from_syntax(json_ld::Nullable::Some(&s)),
                        None => json_ld::Container::from_syntax(json_ld::Nullable::Null),
                    };
                    sym::check(matches!(back, Ok(y) if x == y), "container mappings written are not read back");
                }
                Err(_) => sym::check(!want, "container mappings that can be combined are not"),
            }
        }
        _ => {
            sym::cover("named");
            for (s, k) in kinds() {
                sym::check(k.as_str() == s && ContainerKind::try_from(s) == Ok(k), "a container mapping is taken for another");
                sym::check(matches!(ContainerKind::try_from(k.keyword()), Ok(x) if x == k), "the keyword of a container mapping is another's");
            }
            let w = sy("?t?", b"lr");
            match Direction::try_from(w.as_str()) {
                Ok(d) => sym::check(d.as_str() == w && d.to_string() == w, "a direction is taken for another"),
                Err(_) => sym::check(w != "ltr" && w != "rtl", "a direction is refused"),
            }
        }
    }
}

/// Printing of expanded documents.
fn expanded((doc, _): (J, bool)) {
    let e = match glue::expand_raw(&doc, Some(pe::BASE), &glue::Docs::default(), Options::default()) {
        Ok(e) => e,
        Err(_) => return sym::cover("no expanded form"),
    };
    let j = glue::to_j(e.clone());
    #[cfg(feature = "replay")]
    println!("doc  {}\nexp  {}", doc.print(), j.print());
    sym::cover("expanded");
    let f = formats();
    let text = e.with(&()).print_with(f.clone()).to_string();
    printed(&text, &j, f);
}
#[no_mangle]
pub extern "C" fn h_print_values() {
    expanded(pe::g_values())
}
#[no_mangle]
pub extern "C" fn h_print_keywords() {
    expanded(pe::g_keywords())
}
#[no_mangle]
pub extern "C" fn h_print_structure() {
    expanded(pe::g_structure())
}

/// Definitions, entry by entry, as their accessors show them.
fn viewed(d: &json_ld::syntax::context::Definition, j: &J) {
    use json_ld::syntax::context::definition::{EntryValueRef as V, Key, KeyOrKeyword, KeyOrKeywordRef};
    use json_ld::syntax::context::TermDefinition;
    use json_ld::syntax::Nullable;
    fn null<T>(x: Nullable<T>, f: impl FnOnce(T) -> J) -> J {
        match x {
            Nullable::Null => N,
            Nullable::Some(x) => f(x),
        }
    }
    let value = |v: V| -> J {
        match v {
            V::Base(x) => null(x, |x| t(x.as_str())),
            V::Import(x) => t(x.as_str()),
            V::Language(x) => null(x, |x| t(x.as_str())),
            V::Direction(x) => null(x, |x| t(x.as_str())),
            V::Propagate(x) | V::Protected(x) => J::Bool(x),
            V::Type(x) => J::from_value(&x.into_json()),
            V::Version(x) => n(x.into_str()),
            V::Vocab(x) => null(x, |x| t(x.as_str())),
            V::Definition(x) => null(x, |x| J::from_value(&x.clone().into_json())),
        }
    };
    let es = match j {
        J::Obj(es) => es,
        _ => return,
    };
    let mut seen = 0;
    let it = d.iter();
    sym::check(it.size_hint() == (es.len(), Some(es.len())), "the entries of a context are miscounted");
    for e in it {
        let k = e.key().as_str().to_string();
        sym::check(e.into_key().as_str() == k, "the key of an entry of a context is another's");
        seen += es.iter().filter(|x| x.0 == k).count();
    }
    for (e, f) in d.iter().zip(d.iter()) {
        let k = e.key().as_str().to_string();
        let (w, x) = (e.value(), e.into_key_value());
        sym::check(x.0.as_str() == k, "the key of an entry of a context is another's");
        match j.get(&k) {
            Some(y) => {
                sym::check(json_eq(&value(w), y) && json_eq(&value(x.1), y) && json_eq(&value(f.into_value()), y), "an entry of a context has another value");
            }
            None => sym::fail("an entry of a context is not in its JSON"),
        }
    }
    sym::check(seen == es.len(), "an entry of a context is not met, or met twice");
    let all = ["@base", "@container", "@context", "@direction", "@id", "@import", "@language", "@nest", "@prefix", "@propagate", "@protected", "@type", "@version", "@vocab", "t", "u", "v"];
    for k in all {
        let key = KeyOrKeywordRef::from(k).to_owned();
        sym::check(key.as_str() == k && key.to_string() == k && !key.is_empty(), "a key is not what it is made of");
        let keyword = k.starts_with('@');
        sym::check(
            key.as_keyword().map(|x| x.into_str()) == keyword.then_some(k) && key.as_key().map(|x| x.as_str()) == (!keyword).then_some(k),
            "a key is taken for a keyword, or a keyword for a key",
        );
        sym::check(
            key.clone().into_keyword().map(|x| x.into_str()) == keyword.then_some(k)
                && key.clone().into_key().map(|x| x.into_string()) == (!keyword).then_some(k.to_string()),
            "a key is taken for a keyword, or a keyword for a key",
        );
        match (d.get(&key), j.get(k)) {
            (Some(v), Some(w)) => sym::check(json_eq(&value(v), w), "an entry of a context has another value"),
            (None, None) => (),
            _ => sym::fail("an entry of a context is not found, or one that is not there is"),
        }
        if let KeyOrKeyword::Key(x) = &key {
            sym::check(d.get_binding(x).is_some() == j.get(k).is_some(), "a term is not found, or one that is not there is");
        }
        let term = Key::from(k);
        sym::check(term.as_str() == k && term.len() == k.len() && term.is_keyword_like() == keyword, "a key is not what it is made of");
    }
    let terms = es.iter().filter(|x| !x.0.starts_with('@')).count();
    sym::check(d.bindings.len() == terms && d.bindings.is_empty() == (terms == 0), "the terms of a context are miscounted");
    let copy: json_ld::syntax::context::definition::Bindings = d.bindings.clone().into_iter().collect();
    sym::check(copy == d.bindings, "the terms of a context are lost");
    for (k, v) in d.bindings.iter() {
        if let Nullable::Some(v) = v {
            let want = j.get(k.as_str());
            let want = match want {
                Some(w) => w,
                None => continue,
            };
            let mut all = o(&[]);
            let x = v.as_expanded();
            match v {
                TermDefinition::Simple(s) => {
                    sym::check(!v.is_expanded() && !v.is_object() && x.id.is_some() && x.type_.is_none() && x.prefix.is_none(), "a simple term definition says more than its IRI");
                    sym::check(json_eq(&t(s.as_str()), want), "a simple term definition is another");
                }
                TermDefinition::Expanded(x) => {
                    let n = match want {
                        J::Obj(es) => es.len(),
                        _ => 0,
                    };
                    let it = x.iter();
                    sym::check(it.size_hint() == (n, Some(n)), "the entries of a term definition are miscounted");
                    for e in it {
                        use json_ld::syntax::context::term_definition::EntryValueRef as W;
                        let k = e.key().as_str();
                        sym::check(e.key().keyword().into_str() == k, "the key of an entry of a term definition is another's");
                        let y = match e.value() {
                            W::Id(x) => null(x, |x| t(x.as_str())),
                            W::Type(x) => null(x, |x| t(x.as_str())),
                            W::Context(x) => J::from_value(&x.clone().into_json()),
                            W::Reverse(x) => t(x.as_str()),
                            W::Index(x) => t(x.as_str()),
                            W::Language(x) => null(x, |x| t(x.as_str())),
                            W::Direction(x) => null(x, |x| t(x.as_str())),
                            W::Container(x) => null(x, |x| J::from_value(&x.clone().into_json())),
                            W::Nest(x) => t(x.as_str()),
                            W::Prefix(x) | W::Propagate(x) | W::Protected(x) => J::Bool(x),
                        };
                        sym::check(e.into_key().as_str() == k, "the key of an entry of a term definition is another's");
                        all.set(k, y)
                    }
                    sym::check(json_eq(&all, want), "an entry of a term definition is not met, or has another value");
                }
            }
        }
    }
}
/// Contexts taken apart; versions; error codes; JSON compared up to order.
#[no_mangle]
pub extern "C" fn h_syntax_views() {
    match sym::choice(6) {
        0 => {
            let k = sym::choice(11);
            let (k1, v1) = definition_entry(k);
            let mut d = o(&[(k1, v1)]);
            let l = sym::choice(11);
            if l > k {
                let (k2, v2) = definition_entry(l);
                d.set(k2, v2)
            }
            sym::cover("viewed");
            let ctx = match sym::choice(4) {
                0 => d.clone(),
                1 => a(&[d.clone()]),
                2 => a(&[N, d.clone(), t("http://e.x/c")]),
                _ => a(&[]),
            };
            let c = match Context::try_from_json(glue::val(&ctx)) {
                Ok(c) => c,
                Err(_) => return sym::fail("refuses a context"),
            };
            #[cfg(feature = "replay")]
            println!("ctx  {}", ctx.print());
            let items = match &ctx {
                J::Arr(x) => x.clone(),
                x => vec![x.clone()],
            };
            sym::check(c.is_array() == matches!(ctx, J::Arr(_)) && c.is_object() == matches!(ctx, J::Obj(_)), "the form of a context is another");
            sym::check(c.len() == items.len() && c.is_empty() == items.is_empty() && c.as_slice().len() == items.len(), "the length of a context is another");
            let parts: Vec<J> = c.iter().map(|e| J::from_value(&e.clone().into_json())).collect();
            sym::check(parts.len() == items.len() && parts.iter().zip(&items).all(|(x, y)| json_eq(x, y)), "the parts of a context are others");
            for (e, i) in c.iter().zip(&items) {
                sym::check(e.is_object() == matches!(i, J::Obj(_)), "the form of a context is another");
                if let json_ld::syntax::ContextEntry::Definition(d) = e {
                    viewed(d, i);
                    let alone = Context::from(d.clone());
                    sym::check(json_eq(&J::from_value(&alone.into_json()), i), "a context made of a definition is another")
                }
            }
            let parts: Vec<J> = c.into_iter().map(|e| J::from_value(&e.into_json())).collect();
            sym::check(parts.len() == items.len() && parts.iter().zip(&items).all(|(x, y)| json_eq(x, y)), "the parts of a context are others");
        }
        1 => {
            let k = sym::choice(12);
            let l = sym::choice(12);
            if l < k {
                return;
            }
            let plain = || t("http://e.x/a");
            let (k1, v1) = term_entry(k, plain);
            let mut d = o(&[(k1, v1)]);
            if l > k {
                let (k2, v2) = term_entry(l, plain);
                d.set(k2, v2)
            }
            let j = o(&[("t", d)]);
            sym::cover("viewed");
            #[cfg(feature = "replay")]
            println!("ctx  {}", j.print());
            match Context::try_from_json(glue::val(&j)) {
                Ok(c) => match c.iter().next() {
                    Some(json_ld::syntax::ContextEntry::Definition(d)) => viewed(d, &j),
                    _ => sym::fail("the parts of a context are others"),
                },
                Err(_) => sym::fail("refuses a context"),
            }
        }
        2 => {
            // Error codes.
            let codes = [
                "colliding keywords", "conflicting indexes", "context overflow", "cyclic IRI mapping", "invalid @id value",
                "invalid @import value", "invalid @included value", "invalid @index value", "invalid @nest value", "invalid @prefix value",
                "invalid @propagate value", "invalid @protected value", "invalid @reverse value", "invalid @version value",
                "invalid base direction", "invalid base IRI", "invalid container mapping", "invalid context entry",
                "invalid context nullification", "invalid default language", "invalid IRI mapping", "invalid JSON literal",
                "invalid keyword alias", "invalid language map value", "invalid language mapping", "invalid language-tagged string",
                "invalid language-tagged value", "invalid local context", "invalid remote context", "invalid reverse property",
                "invalid reverse property map", "invalid reverse property value", "invalid scoped context", "invalid script element",
                "invalid set or list object", "invalid term definition", "invalid type mapping", "invalid type value",
                "invalid typed value", "invalid value object", "invalid value object value", "invalid vocab mapping",
                "IRI confused with prefix", "keyword redefinition", "loading document failed", "loading remote context failed",
                "multiple context link headers", "processing mode conflict", "protected term redefinition",
            ];
            let k = pick(&codes);
            sym::cover("viewed");
            match json_ld::syntax::ErrorCode::try_from(k) {
                Ok(c) => sym::check(c.as_str() == k && c.to_string() == k, "an error code is taken for another"),
                Err(_) => sym::fail("an error code is not known"),
            }
            let at = sym::choice(k.len());
            let mut w = k.as_bytes().to_vec();
            w[at] = sym::byte_in(b"aeinIs @");
            let w = String::from_utf8(w).unwrap();
            sym::check(json_ld::syntax::ErrorCode::try_from(w.as_str()).is_ok() == codes.contains(&w.as_str()), "a string that is no error code is taken for one");
        }
        3 => {
            use json_ld::syntax::context::definition::Version;
            let w = sy(&"????"[..1 + sym::choice(4)], b"10.");
            sym::cover("viewed");
            sym::check(w.parse::<Version>().is_ok() == (w == "1.1"), "a string is taken for the version, or not");
            if let Ok(num) = json_syntax::NumberBuf::new(w.clone().into_bytes().into()) {
                // 1.1, however many zeros follow.
                let is = w.starts_with("1.1") && w[3..].bytes().all(|b| b == b'0');
                sym::check(Version::try_from(num).is_ok() == is, "a number is taken for the version, or not");
            }
            let f = pick(&[1.1f64, 1.0, 1.2, -1.1, 11.0, 0.0, f64::NAN]);
            sym::check(Version::try_from(f).is_ok() == (f == 1.1), "a number is taken for the version, or not");
            sym::check(Version::try_from(f as f32).is_ok() == (f == 1.1), "a number is taken for the version, or not");
        }
        4 => {
            use json_ld::syntax::Compare;
            fn scalar() -> J {
                pick(&[n("1"), n("2"), T, F, N, t("1")])
            }
            fn up(x: &J, y: &J) -> bool {
                match (x, y) {
                    (J::Arr(x), J::Arr(y)) => {
                        let mut rest: Vec<&J> = y.iter().collect();
                        x.len() == y.len()
                            && x.iter().all(|i| match rest.iter().position(|k| up(i, k)) {
                                Some(p) => {
                                    rest.remove(p);
                                    true
                                }
                                None => false,
                            })
                    }
                    (J::Obj(x), J::Obj(z)) => x.len() == z.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| up(v, w))),
                    _ => json_eq(x, y),
                }
            }
            let nested = || match sym::choice(5) {
                0 => scalar(),
                1 => a(&[pick(&[n("1"), n("2")]), pick(&[n("1"), n("2")])]),
                2 => o(&[("a", pick(&[n("1"), n("2")])), ("b", n("1"))]),
                3 => a(&[]),
                _ => o(&[(pick(&["b", "c"]), n("1")), ("a", pick(&[n("1"), n("2")]))]),
            };
            let (x, y) = match sym::choice(4) {
                0 => (nested(), nested()),
                1 => (a(&[scalar(), scalar()]), a(&[scalar(), scalar()])),
                2 => {
                    let s = || pick(&[n("1"), n("2")]);
                    (a(&[s(), s(), s()]), a(&[s(), s(), s()]))
                }
                _ => (a(&[nested(), n("1")]), a(&[n("1"), nested()])),
            };
            sym::cover("viewed");
            #[cfg(feature = "replay")]
            println!("{} {}", x.print(), y.print());
            sym::check(glue::val(&x).compare(&glue::val(&y)) == up(&x, &y), "JSON is not compared up to order");
        }
        _ => {
            // The same term twice.
            let v = || pick(&[N, t("http://e.x/a"), o(&[("@id", t("http://e.x/a"))])]);
            let (x, y) = (v(), v());
            let w = J::Obj(vec![("t".to_string(), x), ("u".to_string(), t("x")), ("t".to_string(), y)]);
            let c = match sym::choice(3) {
                0 => w,
                1 => a(&[N, w]),
                _ => o(&[("s", o(&[("@context", w)]))]),
            };
            sym::cover("viewed");
            sym::check(Context::try_from_json(glue::val(&c)).is_err(), "a context that defines a term twice is read");
        }
    }
}
