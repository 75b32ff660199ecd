//! Reads a case {op, doc, base, ctx, docs, options} on stdin and prints the result, or the error code.
use iref::{Iri, IriBuf};
use json_ld::syntax::{IntoJsonWithContext, Object, Parse, Print, TryFromJson, Value};
use json_ld::*;
use std::future::Future;
use std::task::{Context as Cx, Poll, Waker};

struct Docs(Object);
impl Loader for Docs {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        // The key `a>b` stands for a redirection from a to b.
        match self.0.iter().find(|e| e.key.as_str().split('>').next() == Some(url.as_str())) {
            Some(e) => {
                let last = Iri::new(e.key.as_str().rsplit('>').next().unwrap()).unwrap().to_owned();
                Ok(RemoteDocument::new(Some(last), Some("application/ld+json".parse().unwrap()), e.value.clone()))
            }
            None => Err(LoadError::new(url.to_owned(), std::io::Error::from(std::io::ErrorKind::NotFound))),
        }
    }
}
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut Cx::from_waker(Waker::noop())) { return r; }
    }
}
fn err(code: impl std::fmt::Display) -> Value { Value::String(format!("error: {code}").as_str().into()) }
fn main() {
    let text = std::io::read_to_string(std::io::stdin()).unwrap();
    let case = Value::parse_str(&text).unwrap().0.into_object().unwrap();
    let get = |k: &str| case.get(k).next().cloned();
    let s = |k: &str| get(k).and_then(|v| v.as_str().map(|x| x.to_string()));
    let flag = |k: &str, d: bool| get(k).and_then(|v| v.as_boolean()).unwrap_or(d);
    let base = s("base").unwrap_or("http://base.org/d/doc".into());
    let base = IriBuf::new(base).unwrap();
    let docs = Docs(get("docs").and_then(|v| v.into_object()).unwrap_or_default());
    let mut o = Options::<IriBuf>::default();
    o.ordered = flag("ordered", false);
    o.compact_arrays = flag("compact_arrays", true);
    o.compact_to_relative = flag("compact_to_relative", true);
    if flag("mode10", false) { o.processing_mode = ProcessingMode::JsonLd1_0; }
    if let Some(d) = s("rdf_direction") { o.rdf_direction = Some(d.parse().unwrap()); }
    let doc = RemoteDocument::new(Some(base.clone()), None, get("doc").unwrap());
    let ctx = |v: Value| -> RemoteContextReference<IriBuf> {
        RemoteDocumentReference::Loaded(RemoteDocument::new(Some(base.clone()), None,
            json_ld::syntax::context::Context::try_from_json(v).unwrap()))
    };
    let mut g = rdf_types::generator::Blank::new();
    let r = match s("op").unwrap().as_str() {
        "expand" => match block_on(doc.expand_using(&docs, o)) {
            Ok(d) => d.into_objects().into_json_with(&()),
            Err(e) => err(e.code()),
        },
        "compact" => match block_on(doc.compact_using(ctx(get("ctx").unwrap()), &docs, o)) {
            Ok(v) => v,
            Err(e) => err(e.code()),
        },
        "round" => match block_on(doc.compact_using(ctx(get("ctx").unwrap()), &docs, o.clone())) {
            Ok(v) => match block_on(RemoteDocument::new(Some(base.clone()), None, v).expand_using(&docs, o)) {
                Ok(d) => d.into_objects().into_json_with(&()),
                Err(e) => err(e.code()),
            },
            Err(e) => err(e.code()),
        },
        "flatten" => match block_on(doc.flatten_using(&mut g, &docs, o)) {
            Ok(v) => v,
            Err(e) => err(e),
        },
        "rdf" => match block_on(doc.to_rdf_using(&mut g, &docs, o)) {
            Ok(mut d) => {
                use rdf_types::RdfDisplay;
                let mut l: Vec<String> = d.cloned_quads().map(|q| q.rdf_display().to_string()).collect();
                l.sort();
                Value::Array(l.iter().map(|x| Value::String(x.as_str().into())).collect())
            }
            Err(e) => err(e),
        },
        x => panic!("{x}"),
    };
    println!("{}", r.compact_print());
}
