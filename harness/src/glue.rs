//! Calls into the crates under test, through their public interface.
use crate::refimpl::ctx::E;
use crate::refimpl::json::*;
use iref::{Iri, IriBuf};
use json_ld::syntax::context::{Context as LdContext};
use json_ld::syntax::{Parse, TryFromJson, Value};
use json_ld::{
    JsonLdProcessor, LoadError, Loader, LoadingResult, Options, RemoteContextReference, RemoteDocument,
    RemoteDocumentReference,
};
use std::cell::RefCell;
use std::future::Future;
use std::task::*;

pub type Doc = json_ld::ExpandedDocument<IriBuf, rdf_types::BlankIdBuf>;

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Waker::noop();
    let mut cx = Context::from_waker(w);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}

pub fn val(j: &J) -> Value {
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Boolean(*b),
        J::Num(n) => Value::parse_str(n).unwrap().0,
        J::Str(s) => Value::String(s.as_str().into()),
        J::Arr(a) => Value::Array(a.iter().map(val).collect()),
        J::Obj(o) => {
            let mut r = json_ld::syntax::Object::new();
            for (k, v) in o {
                r.push(k.as_str().into(), val(v));
            }
            Value::Object(r)
        }
    }
}

/// A loader over a fixed set of documents that records what it was asked for.
#[derive(Default)]
pub struct Docs {
    pub docs: Vec<(String, J)>,
    pub log: RefCell<Vec<String>>,
}
impl Loader for Docs {
    async fn load(&self, url: &Iri) -> LoadingResult<IriBuf> {
        self.log.borrow_mut().push(url.as_str().to_string());
        for (u, d) in &self.docs {
            if u.split('>').next() == Some(url.as_str()) {
                let last = u.rsplit('>').next().unwrap();
                return Ok(RemoteDocument::new(
                    Some(Iri::new(last).unwrap().to_owned()),
                    Some("application/ld+json".parse().unwrap()),
                    val(d),
                ));
            }
        }
        Err(LoadError::new(url.to_owned(), std::io::Error::from(std::io::ErrorKind::NotFound)))
    }
}

pub fn rdoc(doc: &J, base: Option<&str>) -> RemoteDocument<IriBuf> {
    RemoteDocument::new(
        base.map(|b| Iri::new(b).unwrap().to_owned()),
        None,
        val(doc),
    )
}

/// A loaded context reference; `None` when it is not syntactically a context.
pub fn rctx(ctx: &J, base: Option<&str>) -> Result<RemoteContextReference<IriBuf>, E> {
    match LdContext::try_from_json(val(ctx)) {
        Ok(c) => Ok(RemoteDocumentReference::Loaded(RemoteDocument::new(
            base.map(|b| Iri::new(b).unwrap().to_owned()),
            None,
            c,
        ))),
        Err(e) => Err(e.code()),
    }
}

pub fn expand_raw(doc: &J, base: Option<&str>, docs: &Docs, o: Options<IriBuf>) -> Result<Doc, E> {
    let d = rdoc(doc, base);
    block_on(d.expand_using(docs, o)).map_err(|e| e.code())
}
pub fn to_j(d: Doc) -> J {
    J::from_value(&json_ld::syntax::IntoJsonWithContext::into_json_with(d.into_objects(), &()))
}
pub fn expand(doc: &J, base: Option<&str>, docs: &Docs, o: Options<IriBuf>) -> Result<J, E> {
    expand_raw(doc, base, docs, o).map(to_j)
}
pub fn compact(doc: &J, base: Option<&str>, ctx: &J, docs: &Docs, o: Options<IriBuf>) -> Result<J, E> {
    let d = rdoc(doc, base);
    let c = rctx(ctx, base)?;
    block_on(d.compact_using(c, docs, o)).map(|v| J::from_value(&v)).map_err(|e| e.code())
}
