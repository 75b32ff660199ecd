//! The forms of every operation: the variants of the functions, the ways to
//! store identifiers, the ways to hand over a document.
use crate::b::*;
use crate::glue::{self, Docs};
use crate::refimpl::ctx::E;
use crate::refimpl::json::*;
use crate::refimpl::rdf::{cat, iso_eq, Quad, Term};
use crate::sym;
use iref::{Iri, IriBuf};
use json_ld::rdf::{RdfDirection, Value as RdfValue};
use json_ld::syntax::context::Context as LdContext;
use json_ld::syntax::{IntoJsonWithContext, Parse, TryFromJson, Value};
use json_ld::{JsonLdProcessor, Options, ProcessingMode, RemoteContextReference, RemoteDocument, RemoteDocumentReference, ValidId};
use json_ld::{Flatten, RdfQuads};
use rdf_types::generator::Blank;
use rdf_types::vocabulary::{BlankIdVocabulary, BlankIdVocabularyMut, IndexVocabulary, IriVocabularyMut, LiteralVocabularyMut};
use rdf_types::{LiteralTypeRef, VocabularyMut};

const URL: &str = "http://d.x/d/doc";

fn parse(x: &str) -> J {
    J::from_value(&Value::parse_str(x).unwrap().0)
}
/// Documents with something of everything.
fn pool(i: usize) -> J {
    parse(match i {
        0 => r#"{"@context":{"@vocab":"http://v.x/","p":{"@type":"@id"},"i":"@id"},"i":"n","@type":["T","_:t"],"p":["x","_:b","http://e.x/a/b"],"q":{"i":"_:b","r":[1,1.5,true,null]}}"#,
        1 => r#"{"@context":{"p":{"@id":"http://e.x/p","@container":"@language"},"l":{"@id":"http://e.x/l","@container":"@list"},"d":{"@id":"http://e.x/d","@language":"en","@direction":"rtl"},"j":{"@id":"http://e.x/j","@type":"@json"}},"p":{"en":"a","FR-ca":["b","c"],"@none":"d"},"l":["z",{"@id":"y"},[ "w" ]],"d":"s","j":{"b":1,"a":[]}}"#,
        2 => r#"{"@context":{"@version":1.1,"g":{"@id":"http://e.x/g","@container":["@graph","@id"]},"t":{"@id":"http://e.x/t","@container":"@type"},"x":{"@id":"http://e.x/x","@container":"@index"}},"@id":"_:s","g":{"h":{"@type":"http://e.x/T"},"_:k":{"http://e.x/p":"v"}},"t":{"U":{"@id":"_:u"}},"x":{"2":"b","1":["a",{"@id":"_:k"}]}}"#,
        3 => r#"{"@context":{"rev":{"@reverse":"http://e.x/rev"},"T":{"@id":"http://e.x/T","@context":{"p":"http://t.x/p"}},"n":"@nest","e":"http://e.x/"},"@id":"a","@type":"T","p":{"@id":"c"},"rev":[{"@id":"_:r"},{"@id":"q"}],"n":{"e:z":"v"},"@included":[{"@id":"i","@type":"e:J"}],"@reverse":{"e:back":{"@id":"b"}}}"#,
        4 => r#"{"@context":"sub","@graph":[{"@id":"a","q":{"@id":"_:x","@graph":{"@id":"z","q":"w"}}},{"q":[{"@value":"v","@type":"T"},{"@value":"v","@language":"EN","@direction":"ltr"}],"not":"x","_:gen":"y"}]}"#,
        5 => r#"[{"@id":"http://e.x/a","http://e.x/p":[{"@set":["a","b"],"@index":"k"},{"@list":[]}],"http://e.x/q":{"@id":"not an IRI"}},{"@id":"@unknown","http://e.x/p":"v"}]"#,
        6 => r#"{"@context":[{"a":"http://e.x/a","@language":"de"},{"a":null}],"a":"x","http://e.x/a":"y","b":"z"}"#,
        7 => r#"{"@context":{"p":{"@id":"http://e.x/p","@container":"@set","@context":"sub"}},"p":{"q":{"@id":"http://d.x/d/p/q"}}}"#,
        8 => r#"{"@context":"missing","p":"v"}"#,
        9 => r#"{"@context":{"p":{"@id":"http://e.x/p","@container":"@graph","@type":"x y"}},"p":"v"}"#,
        _ => r#"[{"@id":"http://e.x/a","@index":"1","http://e.x/p":"v"},{"@id":"http://e.x/a","@index":"2"}]"#,
    })
}
const POOL: usize = 11;
fn known() -> Docs {
    let docs = [
        ("http://d.x/d/sub", r#"{"@context":{"q":"http://d.x/q","@base":"http://no.x/"}}"#),
        ("http://b.x/b/sub", r#"{"@context":{"q":{"@id":"http://b.x/q","@type":"@id"}}}"#),
        ("http://l.x/moved>http://l.x/l/rel", r#"{"@context":[{"@vocab":"http://lv.x/"},"more"]}"#),
        ("http://l.x/l/more", r#"{"@context":{"p":"http://l.x/p"}}"#),
        ("http://c.x/moved>http://c.x/c/ctx", r#"{"@context":["../r",{"@base":"http://d.x/"}]}"#),
        ("http://c.x/r", r#"{"@context":{"ep":{"@id":"http://e.x/p","@type":"@id"},"e":"http://e.x/","id":"@id","v":{"@id":"http://e.x/q","@container":"@language"}}}"#),
    ];
    Docs { docs: docs.iter().map(|(u, d)| (u.to_string(), parse(d))).collect(), ..Docs::default() }
}

#[derive(Clone, Copy)]
struct In {
    doc: usize,
    ctx: usize,
    link: bool,
    /// Default options, or all others.
    set: usize,
}
impl In {
    fn options<V: IriVocabularyMut>(&self, v: &mut V) -> Options<V::Iri>
    where
        V::Iri: Clone,
    {
        let mut o = Options::default();
        match self.set {
            0 => (),
            1 => {
                o.base = Some(iri(v, "http://b.x/b/f"));
                o.ordered = true;
                o.compact_arrays = false;
                o.expand_context = Some(context(v, r#"["http://d.x/d/sub",{"x":"http://x.x/x"}]"#, None));
                o.rdf_direction = Some(RdfDirection::I18nDatatype);
            }
            2 => {
                o.compact_to_relative = false;
                o.expand_context = Some(RemoteDocumentReference::Iri(iri(v, "http://c.x/moved")));
                o.rdf_direction = Some(RdfDirection::CompoundLiteral);
                o.produce_generalized_rdf = true;
            }
            _ => {
                o.processing_mode = ProcessingMode::JsonLd1_0;
                o.base = Some(iri(v, "http://d.x/d/e/"));
                o.compact_arrays = false
            }
        }
        o
    }
    fn json(&self) -> J {
        pool(self.doc)
    }
    fn remote<V: IriVocabularyMut>(&self, v: &mut V) -> RemoteDocument<V::Iri> {
        RemoteDocument::new_full(
            Some(iri(v, URL)),
            Some("application/json".parse().unwrap()),
            if self.link { Some(iri(v, "http://l.x/moved")) } else { None },
            Default::default(),
            glue::val(&self.json()),
        )
    }
    fn context<V: IriVocabularyMut>(&self, v: &mut V) -> RemoteContextReference<V::Iri> {
        match self.ctx {
            0 => RemoteDocumentReference::Iri(iri(v, "http://c.x/moved")),
            1 => context(
                v,
                r#"{"@vocab":"http://v.x/","p":{"@id":"http://e.x/p","@container":"@set"},"T":{"@id":"http://e.x/T","@context":{"tp":"http://t.x/p"}},"i":"@id","back":{"@reverse":"http://e.x/rev"},"y":{"@id":"http://e.x/x","@container":"@index"},"m":{"@id":"http://e.x/t","@container":"@type"}}"#,
                None,
            ),
            2 => context(v, r#"["sub",{"l":{"@id":"http://e.x/l","@container":"@list"},"g":{"@id":"http://e.x/g","@container":["@graph","@id"]},"n":{"@id":"http://e.x/d","@nest":"nest"},"nest":"@nest"}]"#, Some("http://b.x/b/c")),
            _ => RemoteDocumentReference::Iri(iri(v, "http://c.x/missing")),
        }
    }
}
fn iri<V: IriVocabularyMut>(v: &mut V, x: &str) -> V::Iri {
    v.insert(Iri::new(x).unwrap())
}
fn context<V: IriVocabularyMut>(v: &mut V, c: &str, base: Option<&str>) -> RemoteContextReference<V::Iri> {
    let c = LdContext::try_from_json(glue::val(&parse(c))).ok().unwrap();
    RemoteDocumentReference::Loaded(RemoteDocument::new(base.map(|b| iri(v, b)), None, c))
}

/// What an operation gives.
#[derive(Clone)]
enum Out {
    Json(Result<J, E>),
    Data(Result<Vec<Quad>, E>),
}
fn show(o: &Out) {
    #[cfg(feature = "replay")]
    match o {
        Out::Json(x) => println!("{}", crate::p_expand::show(x)),
        Out::Data(Err(e)) => println!("error {}", e.as_str()),
        Out::Data(Ok(x)) => x.iter().for_each(|q| println!("  {} {} {:?} {}", q.s, q.p, q.o, q.g)),
    }
    let _ = o;
}
fn agree(want: &Out, got: &Out, ordered: bool, m: &str) {
    show(got);
    match (want, got) {
        (Out::Json(Ok(x)), Out::Json(Ok(y))) => {
            let (mut x, mut y) = (x.clone(), y.clone());
            norm(&mut x);
            norm(&mut y);
            sym::check(if ordered { x.print() == y.print() } else { ld_eq(&x, &y, false) }, m)
        }
        (Out::Json(Err(x)), Out::Json(Err(y))) | (Out::Data(Err(x)), Out::Data(Err(y))) => sym::check(x == y, m),
        (Out::Data(Ok(x)), Out::Data(Ok(y))) => sym::check(iso_eq(x, y), m),
        _ => sym::fail(m),
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Form {
    Full,
    WithUsing,
    With,
}

fn expanded<V: VocabularyMut>(d: json_ld::ExpandedDocument<V::Iri, V::BlankId>, v: &V) -> J
where
    V::Iri: Eq + core::hash::Hash,
    V::BlankId: Eq + core::hash::Hash,
{
    J::from_value(&IntoJsonWithContext::into_json_with(d.into_objects(), v))
}
const OPS: usize = 4;
/// Expansion, both documents, compaction, flattening.
fn run<V: VocabularyMut>(v: &mut V, i: &In, op: usize, form: Form, docs: &Docs) -> Out
where
    V: rdf_types::vocabulary::LiteralVocabularyMut,
    V::Iri: Clone + Eq + core::hash::Hash + core::fmt::Debug,
    V::BlankId: Clone + Eq + core::hash::Hash + core::fmt::Debug,
{
    let (d, o) = (i.remote(v), i.options(v));
    let mut g = rdf_types::generator::Blank::new();
    Out::Json(match op {
        0 => match form {
            Form::Full => glue::block_on(d.expand_full(v, docs, o, ())),
            Form::WithUsing => glue::block_on(d.expand_with_using(v, docs, o)),
            Form::With => glue::block_on(d.expand_with(v, docs)),
        }
        .map(|d| expanded(d, v))
        .map_err(|e| e.code()),
        1 => match form {
            Form::Full => glue::block_on(d.into_document_full(v, docs, o, ())),
            Form::WithUsing => glue::block_on(d.into_document_with_using(v, docs, o)),
            Form::With => glue::block_on(d.into_document_with(v, docs)),
        }
        .map(|d| {
            sym::check(
                J::from_value(d.as_compact()).print() == i.json().print() && d.as_remote().url().and_then(|u| v.iri(u)).map(|u| u.as_str()) == Some(URL),
                "a document expanded is another",
            );
            expanded(d.into_expanded(), v)
        })
        .map_err(|e| e.code()),
        2 => {
            let c = i.context(v);
            match form {
                Form::Full => glue::block_on(d.compact_full(v, c, docs, o, ())),
                Form::WithUsing => glue::block_on(d.compact_with_using(v, c, docs, o)),
                Form::With => glue::block_on(d.compact_with(v, c, docs)),
            }
            .map(|x| J::from_value(&x))
            .map_err(|e| e.code())
        }
        _ => match form {
            Form::Full => glue::block_on(d.flatten_full(v, &mut g, None, docs, o, ())),
            Form::WithUsing => glue::block_on(d.flatten_with_using(v, &mut g, docs, o)),
            Form::With => glue::block_on(d.flatten_with(v, &mut g, docs)),
        }
        .map(|x| J::from_value(&x))
        .map_err(|e| e.code()),
    })
}
/// The forms without a vocabulary.
fn run_plain(i: &In, op: usize, using: bool, docs: &Docs) -> Out {
    let (d, o) = (i.remote(&mut ()), i.options(&mut ()));
    let mut g = rdf_types::generator::Blank::new();
    Out::Json(match op {
        0 => if using { glue::block_on(d.expand_using(docs, o)) } else { glue::block_on(d.expand(docs)) }.map(glue::to_j).map_err(|e| e.code()),
        1 => glue::block_on(JsonLdProcessor::into_document(d, docs)).map(|d| glue::to_j(d.into_expanded())).map_err(|e| e.code()),
        2 => {
            let c = i.context(&mut ());
            if using { glue::block_on(d.compact_using(c, docs, o)) } else { glue::block_on(d.compact(c, docs)) }
                .map(|x| J::from_value(&x))
                .map_err(|e| e.code())
        }
        _ => if using { glue::block_on(d.flatten_using(&mut g, docs, o)) } else { glue::block_on(d.flatten(&mut g, docs)) }
            .map(|x| J::from_value(&x))
            .map_err(|e| e.code()),
    })
}

fn case() -> In {
    let doc = sym::conc(sym::choice(POOL));
    let set = sym::conc(sym::choice(4));
    In { doc, ctx: 0, link: doc != 8 && sym::choice(2) == 1, set }
}
/// All variants of the functions.
#[no_mangle]
pub extern "C" fn h_forms_variants() {
    let op = sym::conc(sym::choice(OPS));
    let form = sym::conc(sym::choice(6));
    sym::assume(form != 5 || op == 3);
    let mut i = case();
    // Variants without options have the default ones.
    sym::assume(i.set == 0 || ![1, 3].contains(&form));
    // There is none of this name.
    sym::assume(op != 1 || form != 2);
    if op == 2 {
        i.ctx = sym::conc(sym::choice(4))
    }
    let docs = known();
    let want = run(&mut (), &i, op, Form::Full, &docs);
    let got = match form {
        0 => run(&mut (), &i, op, Form::WithUsing, &docs),
        1 => run(&mut (), &i, op, Form::With, &docs),
        2 => run_plain(&i, op, true, &docs),
        3 => run_plain(&i, op, false, &docs),
        5 => Out::Json(match glue::block_on(i.remote(&mut ()).expand_using(&docs, i.options(&mut ()).unordered())) {
            Err(e) => Err(e.code()),
            Ok(d) => match d.flatten_unordered(Blank::new()) {
                Err(_) => Err(E::ConflictingIndexes),
                Ok(x) => Ok(J::Arr(x.into_iter().map(|n| J::from_value(&IntoJsonWithContext::into_json_with(n, &()))).collect())),
            },
        }),
        _ => return refs(&i, op, &docs, &want),
    };
    #[cfg(feature = "replay")]
    println!("doc {} op {op} form {form} link {} options {}", i.json().print(), i.link, i.set);
    show(&want);
    sym::cover("same");
    agree(&want, &got, false, "a variant of an operation gives something else")
}
/// The document by reference, loaded or not.
fn refs(i: &In, op: usize, docs: &Docs, want: &Out) {
    let d = match i.link {
        true => RemoteDocumentReference::Loaded(i.remote(&mut ())),
        // The loader gives no linked context.
        false => RemoteDocumentReference::Iri(iri(&mut (), "http://d.x/ref")),
    };
    let docs = Docs { docs: docs.docs.iter().cloned().chain([(["http://d.x/ref>", URL].concat(), i.json())]).collect(), ..Docs::default() };
    let o = i.options(&mut ());
    let mut g = rdf_types::generator::Blank::new();
    let got = Out::Json(match op {
        0 => glue::block_on(d.expand_using(&docs, o)).map(glue::to_j).map_err(|e| e.code()),
        1 => glue::block_on(d.into_document_with_using(&mut (), &docs, o)).map(|d| glue::to_j(d.into_expanded())).map_err(|e| e.code()),
        2 => glue::block_on(d.compact_using(i.context(&mut ()), &docs, o)).map(|x| J::from_value(&x)).map_err(|e| e.code()),
        _ => glue::block_on(d.flatten_using(&mut g, &docs, o)).map(|x| J::from_value(&x)).map_err(|e| e.code()),
    });
    sym::cover("same");
    agree(want, &got, false, "a reference to a document is another document")
}

fn index(full: bool) -> IndexVocabulary {
    let mut v: IndexVocabulary = IndexVocabulary::new();
    if full {
        // What the document uses, in another order, and more.
        for x in ["http://e.x/q", "http://z.x/", "http://e.x/p", "http://v.x/T", "http://d.x/d/doc", "http://e.x/a"] {
            v.insert(Iri::new(x).unwrap());
        }
        for x in ["_:b2", "_:x", "_:b1", "_:b"] {
            v.insert_blank_id(rdf_types::BlankId::new(x).unwrap());
        }
    }
    v
}
/// Identifiers stored elsewhere.
#[no_mangle]
pub extern "C" fn h_forms_vocabulary() {
    let op = sym::conc(sym::choice(OPS - 1));
    let op = if op == 1 { 3 } else { op };
    let mut i = case();
    if op == 2 {
        i.ctx = sym::conc(sym::choice(3))
    }
    let docs = known();
    let want = run(&mut (), &i, op, Form::Full, &docs);
    let got = run(&mut index(sym::choice(2) == 1), &i, op, Form::Full, &docs);
    #[cfg(feature = "replay")]
    println!("doc {} op {op} link {} options {}", i.json().print(), i.link, i.set);
    show(&want);
    sym::cover("same");
    agree(&want, &got, i.set == 1, "the vocabulary makes a difference")
}

type Ids<V> = rdf_types::Quad<
    ValidId<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as BlankIdVocabulary>::BlankId>,
    ValidId<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as BlankIdVocabulary>::BlankId>,
    RdfValue<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as BlankIdVocabulary>::BlankId, <V as rdf_types::vocabulary::LiteralVocabulary>::Literal>,
    ValidId<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as BlankIdVocabulary>::BlankId>,
>;
fn told<V: rdf_types::Vocabulary>(v: &V, quads: &[Ids<V>]) -> Out {
    let id = |x: &ValidId<V::Iri, V::BlankId>| match x {
        ValidId::Iri(i) => v.iri(i).unwrap().as_str().to_string(),
        ValidId::Blank(b) => v.blank_id(b).unwrap().as_str().to_string(),
    };
    let mut out = vec![];
    for rdf_types::Quad(s, p, o, g) in quads {
        let o = match o {
            RdfValue::Id(i) => Term::Node(id(i)),
            RdfValue::Literal(l) => {
                let l = v.literal(l).unwrap();
                Term::Lit(l.value.to_string(), match &l.type_ {
                    LiteralTypeRef::Any(t) => v.iri(t).unwrap().as_str().to_string(),
                    LiteralTypeRef::LangString(t) => cat(&["@", t.as_str()]),
                })
            }
        };
        let q = Quad { s: id(s), p: id(p), o, g: g.as_ref().map_or("@default".to_string(), |g| id(g)) };
        if !out.contains(&q) {
            out.push(q)
        }
    }
    Out::Data(Ok(out))
}
fn rdf_of<V: VocabularyMut + LiteralVocabularyMut>(r: Result<json_ld::ToRdf<V, Blank>, json_ld::ToRdfError>) -> Out
where
    V::Iri: Clone + Eq + core::hash::Hash,
    V::BlankId: Clone + Eq + core::hash::Hash,
    V::Literal: Clone,
{
    match r {
        Ok(mut r) => {
            let quads: Vec<Ids<V>> = r.cloned_quads().collect();
            told(r.vocabulary(), &quads)
        }
        Err(e) => Out::Data(Err(e.code())),
    }
}
/// Serialization as RDF.
#[no_mangle]
pub extern "C" fn h_forms_rdf() {
    let i = case();
    let form = sym::conc(sym::choice(8));
    sym::assume(i.set == 0 || ![1, 3].contains(&form));
    let docs = known();
    let gen = Blank::new;
    let (d, o) = (i.remote(&mut ()), i.options(&mut ()));
    let want = rdf_of(glue::block_on(d.to_rdf_full((), gen(), &docs, o.clone(), ())));
    let got = match form {
        0 => rdf_of(glue::block_on(d.to_rdf_with_using((), gen(), &docs, o))),
        1 => rdf_of(glue::block_on(d.to_rdf_with((), gen(), &docs))),
        2 => rdf_of(glue::block_on(d.to_rdf_using(gen(), &docs, o))),
        3 => rdf_of(glue::block_on(d.to_rdf(gen(), &docs))),
        4 => rdf_of(glue::block_on(RemoteDocumentReference::Loaded(d).to_rdf_using(gen(), &docs, o))),
        5 => {
            let mut v = index(sym::choice(2) == 1);
            let (d, o) = (i.remote(&mut v), i.options(&mut v));
            rdf_of(glue::block_on(d.to_rdf_full(v, gen(), &docs, o, ())))
        }
        // The quads of what the document is flattened to.
        _ => match glue::block_on(d.to_rdf_using(gen(), &docs, o.clone())) {
            Err(e) => Out::Data(Err(e.code())),
            Ok(r) => {
                let d = r.into_document();
                let mut g = Blank::new_with_prefix("f".to_string());
                let (dir, gr) = (o.rdf_direction, o.produce_generalized_rdf);
                let quads: Vec<_> = if form == 6 {
                    match d.flatten(&mut g, o.ordered) {
                        Err(_) => return sym::cover("conflicting indexes"),
                        Ok(f) => f.rdf_quads_full(&mut (), &mut g, dir, gr).cloned().collect(),
                    }
                } else {
                    match d.generate_node_map_with(&mut (), &mut g) {
                        Err(_) => return sym::cover("conflicting indexes"),
                        Ok(m) => m.rdf_quads_full(&mut (), &mut g, dir, gr).cloned().collect(),
                    }
                };
                told(&(), &quads)
            }
        },
    };
    #[cfg(feature = "replay")]
    println!("doc {} form {form} link {} options {}", i.json().print(), i.link, i.set);
    show(&want);
    sym::cover("same");
    agree(&want, &got, false, "a variant of the serialization gives something else")
}

/// The same JSON, whatever the order in objects and arrays.
fn json_eq(x: &J, y: &J) -> bool {
    match (x, y) {
        (J::Arr(x), J::Arr(y)) => {
            let mut left: Vec<&J> = y.iter().collect();
            x.len() == y.len() && x.iter().all(|x| left.iter().position(|y| json_eq(x, y)).map(|k| left.swap_remove(k)).is_some())
        }
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, x)| y.iter().any(|(l, y)| k == l && json_eq(x, y))),
        _ => x.print() == y.print(),
    }
}
/// Comparison of documents.
#[no_mangle]
pub extern "C" fn h_forms_compare() {
    let ctx = parse(r#"{"l":{"@id":"http://e.x/l","@container":"@list"},"p":"http://e.x/p","j":{"@id":"http://e.x/j","@type":"@json"},"n":{"@id":"http://e.x/n","@container":"@language"}}"#);
    let side = |k: &'static str, u: &'static str, shape: usize| {
        let mut es = vec![("@context", ctx.clone())];
        let w = pick(&["a", "b"]);
        es.push((k, match shape {
            0 => t(u),
            1 => a(&[t(u), t(w)]),
            2 => o(&[("a", t(u)), ("b", t(w))]),
            3 => a(&[t(u), t(w), t(u)]),
            _ => a(&[o(&[("@value", n("1"))]), T]),
        }));
        match sym::choice(3) {
            0 => (),
            1 => es.insert(1, ("@id", t("s"))),
            _ => es.push(("@id", t("s"))),
        }
        o(&es)
    };
    let k = pick(&["p", "l", "j", "n", "x"]);
    let shape = sym::conc(sym::choice(5));
    let x = side(k, "a", shape);
    let y = match sym::choice(2) {
        0 => side(k, pick(&["a", "b"]), sym::conc(sym::choice(5))),
        _ => side("p", "a", shape),
    };
    let docs = Docs::default();
    let (dx, dy) = (glue::rdoc(&x, Some(URL)), glue::rdoc(&y, Some(URL)));
    let got = match shape % 2 {
        0 => glue::block_on(dx.compare(&dy, &docs)),
        _ => glue::block_on(RemoteDocumentReference::Loaded(dx).compare_using(&RemoteDocumentReference::Loaded(dy), &docs, Options::<IriBuf>::default())),
    };
    sym::check(
        json_ld::syntax::Compare::compare(&glue::val(&x), &glue::val(&y)) == json_eq(&x, &y),
        "documents compare as other JSON",
    );
    let exp = |x: &J| glue::expand(x, Some(URL), &docs, Options::default()).map(|mut x| {
        norm(&mut x);
        x
    });
    #[cfg(feature = "replay")]
    println!("{}\n{}\n{:?}", x.print(), y.print(), got.as_ref().ok());
    match (json_eq(&x, &y), exp(&x), exp(&y)) {
        (false, ..) => sym::check(matches!(got, Ok(false)), "different documents compare equal"),
        (_, Ok(x), Ok(y)) => {
            sym::cover("compared");
            sym::check(got.ok() == Some(ld_eq(&x, &y, false)), "documents compare as other data")
        }
        (_, Err(e), _) | (_, _, Err(e)) => sym::check(got.is_err_and(|f| f.code() == e), "documents compare that cannot be expanded"),
    }
}

/// A handler that remembers what it hears.
#[derive(Default)]
struct Heard(Vec<String>);
impl<W: std::fmt::Display> json_ld::warning::Handler<(), W> for Heard {
    fn handle(&mut self, _: &(), w: W) {
        let w = w.to_string();
        if !self.0.contains(&w) {
            self.0.push(w)
        }
    }
}
/// Warnings: what is heard, and that hearing changes nothing. (Those of the
/// document's own contexts go to the standard error, not to the handler.)
#[no_mangle]
pub extern "C" fn h_forms_warnings() {
    let map = |x: &str| o(&[("@id", t(x)), ("@container", t("@language"))]);
    let mut ctx = o(&[("p", t("http://e.x/p")), ("m2", map("http://e.x/m2")), ("m", map("http://e.x/m"))]);
    let mut d = o(&[("@id", t("s")), ("p", t("v"))]);
    let mut want: Vec<&str> = vec![];
    let (i, j) = (sym::conc(sym::choice(12)), sym::conc(sym::choice(12)));
    sym::assume(i <= j);
    for k in if i == j { vec![i] } else { vec![i, j] } {
        match k {
            0 => {
                ctx.set("@foo", t("http://e.x/foo"))
            }
            1 => {
                ctx.set("w", o(&[("@id", t("@bar"))]))
            }
            2 => {
                ctx.set("z", o(&[("@reverse", t("@baz"))]))
            }
            3 => {
                d.set("", t("v"));
                want.push("empty term")
            }
            4 => {
                d.set("_:b", t("v"));
                want.push("blank node identifier `_:b` used as property")
            }
            5 => {
                d.set("http://e.x/l", o(&[("@value", t("x")), ("@language", t("no tag"))]));
                want.push("invalid language tag `no tag`:")
            }
            6 => {
                d.set("m", o(&[("en", t("x")), ("bad tag", t("y"))]));
                want.push("invalid language tag `bad tag`:")
            }
            7 => {
                d.set("http://e.x/i", o(&[("@id", t("http://not an IRI/"))]));
                want.push("malformed IRI `http://not an IRI/`")
            }
            // Nothing unusual.
            8 => d.set("http://e.x/i2", o(&[("@id", t("_:b")), ("@type", t("http://e.x/T"))])),
            9 => d.set("m2", o(&[("en", t("x")), ("@none", t("y"))])),
            10 => ctx.set("x", N),
            _ => d.set("http://e.x/l2", o(&[("@value", t("x")), ("@language", t("en-US"))])),
        }
    }
    d.set("@context", ctx);
    let docs = Docs::default();
    let r = glue::rdoc(&d, Some(URL));
    let quiet = glue::block_on(r.expand_full(&mut (), &docs, Options::default(), ())).map(glue::to_j).map_err(|e| e.code());
    let mut heard = Heard::default();
    let loud = glue::block_on(r.expand_full(&mut (), &docs, Options::default(), &mut heard)).map(glue::to_j).map_err(|e| e.code());
    #[cfg(feature = "replay")]
    println!("{}\n{:?}\n{:?}", d.print(), want, heard.0);
    sym::cover("heard");
    agree(&Out::Json(quiet), &Out::Json(loud), false, "hearing warnings makes a difference");
    sym::check(want.iter().all(|w| heard.0.iter().any(|h| h.starts_with(w))), "no warning");
    // Names that are no IRIs are reported even where they need not be.
    sym::check(heard.0.iter().all(|h| h.starts_with("malformed IRI") || want.iter().any(|w| h.starts_with(w))), "an unfounded warning")
}
