//! Options and references of the operations.
use crate::b::*;
use crate::glue::{self, Docs};
use crate::p_expand::compare;
use crate::refimpl::compact as rcomp;
use crate::refimpl::ctx::{Env, E};
use crate::refimpl::expand::{self as rexp, ContextArg};
use crate::refimpl::flatten as rflat;
use crate::refimpl::json::*;
use crate::sym;
use iref::{Iri, IriBuf};
use json_ld::{
    JsonLdProcessor, Options, ProcessingMode, RemoteContextReference, RemoteDocument, RemoteDocumentReference,
};

const URL: &str = "http://d.x/d/doc";
const OPT: &str = "http://b.x/b/f";

fn iri(x: &str) -> IriBuf {
    Iri::new(x).unwrap().to_owned()
}
fn doc_of(c: J) -> J {
    o(&[("@context", c), ("p", t("content of a context document"))])
}
fn vocab(x: &str) -> J {
    o(&[("@vocab", t(x))])
}
/// What the loader knows.
fn known() -> Vec<(String, J)> {
    let term = |k: &str, x: &str| o(&[(k, t(x))]);
    [
        ("http://ec.x/e/main", doc_of(a(&[t("sub"), term("p", "http://ec.x/p")]))),
        ("http://ec.x/e/sub", doc_of(term("q", "http://ec.x/q"))),
        ("http://d.x/d/sub", doc_of(term("q", "http://d.x/q"))),
        ("http://b.x/b/sub", doc_of(term("q", "http://b.x/q"))),
        ("http://l.x/l/sub", doc_of(term("q", "http://l.x/q"))),
        ("http://ec.x/e/based", doc_of(o(&[("@base", t("http://ecb.x/")), ("p", t("http://ec.x/p"))]))),
        ("http://ec.x/moved>http://ec.x/e/main", doc_of(a(&[t("sub"), term("p", "http://ec.x/p")]))),
        ("http://ec.x/none", o(&[("p", t("v"))])),
        ("http://ec.x/array", a(&[doc_of(term("p", "http://ec.x/p"))])),
        ("http://ec.x/bad", doc_of(o(&[("p", n("1"))]))),
        ("http://l.x/l/plain", doc_of(o(&[("@base", t("http://lb.x/")), ("p", t("http://l.x/p")), ("T", t("http://l.x/T"))]))),
        ("http://l.x/l/rel", doc_of(a(&[t("sub"), vocab("http://lv.x/")]))),
        ("http://l.x/moved>http://l.x/l/rel", doc_of(a(&[t("sub"), vocab("http://lv.x/")]))),
        ("http://l.x/null", doc_of(a(&[N, vocab("http://lv.x/")]))),
    ]
    .iter()
    .map(|(k, v)| (k.to_string(), v.clone()))
    .collect()
}
type Arg = (RemoteContextReference<IriBuf>, ContextArg);
fn inline(c: J, url: Option<&str>) -> Arg {
    (glue::rctx(&c, url).ok().unwrap(), (c, url.map(|s| s.to_string())))
}
fn by_iri(u: &str) -> Arg {
    (RemoteDocumentReference::Iri(iri(u)), (t(u), None))
}
/// A context given as an argument.
fn context_arg(i: usize) -> Arg {
    let prot = o(&[("@protected", T), ("p", t("http://ec.x/protected"))]);
    match i {
        0 => inline(o(&[("p", t("http://ec.x/p")), ("@vocab", t("http://ev.x/"))]), None),
        1 => inline(o(&[("p", o(&[("@id", t("http://ec.x/p")), ("@type", t("@id"))])), ("@base", t("http://ecb.x/"))]), None),
        2 => inline(t("sub"), None),
        3 => inline(a(&[t("sub"), vocab("http://ev.x/")]), Some("http://ec.x/e/main")),
        4 => inline(prot, None),
        5 => inline(N, None),
        6 => inline(o(&[("p", o(&[("@id", t("http://ec.x/p")), ("@context", t("sub"))]))]), Some("http://ec.x/e/main")),
        7 => by_iri("http://ec.x/e/main"),
        8 => by_iri("http://ec.x/moved"),
        9 => by_iri("http://ec.x/e/based"),
        10 => by_iri("http://ec.x/missing"),
        11 => by_iri("http://ec.x/none"),
        12 => by_iri("http://ec.x/array"),
        _ => by_iri("http://ec.x/bad"),
    }
}
const ARGS: usize = 14;

struct Input {
    doc: J,
    url: Option<&'static str>,
    base: Option<&'static str>,
    link: Option<&'static str>,
    by_ref: bool,
    mode10: bool,
    docs: Vec<(String, J)>,
}
fn content(own: usize) -> J {
    let mut d = o(&[]);
    match own {
        0 => (),
        1 => d.set("@context", o(&[("p", t("http://own.x/p"))])),
        2 => d.set("@context", t("sub")),
        3 => d.set("@context", o(&[("@base", t("deep/")), ("@vocab", t("http://ov.x/"))])),
        4 => d.set("@context", a(&[N, o(&[("q", t("http://own.x/q"))])])),
        _ => d.set("@context", o(&[("@version", n("1.1")), ("p", o(&[("@id", t("http://own.x/p")), ("@type", t("@vocab"))]))])),
    }
    d.set("@id", t("node"));
    d.set("@type", t("T"));
    d.set("p", t("x"));
    d.set("q", o(&[("@id", t("../y")), ("p", o(&[("@id", t("#z")), ("q", t("v"))]))]));
    d.set("http://e.x/r", o(&[("@id", t("w"))]));
    d
}
fn input(owns: usize) -> Input {
    let (url, base) = (pick(&[None, Some(URL)]), pick(&[None, Some(OPT)]));
    let link = pick(&[
        None,
        Some("http://l.x/l/plain"),
        Some("http://l.x/l/rel"),
        Some("http://l.x/moved"),
        Some("http://l.x/null"),
        Some("http://l.x/missing"),
        Some("http://ec.x/array"),
    ]);
    let doc = content(sym::choice(owns));
    let by_ref = url.is_some() && link.is_none() && sym::choice(2) == 1;
    let mode10 = sym::choice(2) == 1;
    let mut docs = known();
    docs.push((["http://d.x/ref>", URL].concat(), doc.clone()));
    Input { doc, url, base, link, by_ref, mode10, docs }
}
impl Input {
    fn options(&self) -> Options<IriBuf> {
        let mut o = Options::default();
        o.base = self.base.map(iri);
        if self.mode10 {
            o.processing_mode = ProcessingMode::JsonLd1_0
        }
        o
    }
    fn remote(&self) -> RemoteDocumentReference<IriBuf> {
        if self.by_ref {
            return RemoteDocumentReference::Iri(iri("http://d.x/ref"));
        }
        RemoteDocumentReference::Loaded(RemoteDocument::new_full(
            self.url.map(iri),
            Some("application/json".parse().unwrap()),
            self.link.map(iri),
            Default::default(),
            glue::val(&self.doc),
        ))
    }
    fn env(&self) -> Env {
        Env::new(&self.docs, self.mode10)
    }
    fn loader(&self) -> Docs {
        Docs { docs: self.docs.clone(), ..Docs::default() }
    }
    fn expand(&self, env: &Env, c: Option<&ContextArg>) -> Result<J, E> {
        rexp::expand_api(env, &self.doc, self.url, self.base, c, self.link)
    }
    /// Whether the result depends on what "original base URL" is with both a
    /// URL and the base option.
    fn two_bases(&self) -> bool {
        self.url.is_some() && self.base.is_some()
    }
    fn show(&self) {
        #[cfg(feature = "replay")]
        println!("url {:?} base {:?} link {:?} by reference {} 1.0 {}", self.url, self.base, self.link, self.by_ref, self.mode10)
    }
}

/// Expansion with all kinds of references and options.
#[no_mangle]
pub extern "C" fn h_api_expand() {
    let i = input(6);
    let k = sym::choice(ARGS + 1);
    let c = if k == ARGS { None } else { Some(context_arg(k)) };
    let env = i.env();
    let mut opts = i.options();
    let resets = i.link == Some("http://l.x/null") || i.doc.get("@context").is_some_and(|c| c.is_arr()) || k == 5;
    if i.two_bases() && (resets || k == 2) {
        return sym::cover("unspecified");
    }
    let want = i.expand(&env, c.as_ref().map(|c| &c.1));
    opts.expand_context = c.map(|c| c.0);
    let docs = i.loader();
    let got = glue::block_on(i.remote().expand_using(&docs, opts)).map(glue::to_j).map_err(|e| e.code());
    i.show();
    if env.unspecified.get() {
        return sym::cover("unspecified");
    }
    compare(&i.doc, &want, &got, k != 13);
}

/// Compaction and flattening with all kinds of references and options.
#[no_mangle]
pub extern "C" fn h_api_compact() {
    let i = input(4);
    sym::assume(!i.mode10 || i.link.is_none());
    let k = sym::choice(ARGS);
    let (c, (cj, cu)) = context_arg(k);
    let env = i.env();
    let mut opts = i.options();
    opts.compact_to_relative = sym::choice(2) == 1;
    let flat = sym::choice(2) == 1;
    opts.compact_arrays = flat || sym::choice(2) == 1;
    if i.two_bases() && i.link == Some("http://l.x/null") {
        return sym::cover("unspecified");
    }
    let (arrays, relative) = (opts.compact_arrays, opts.compact_to_relative);
    // A context is embedded as the document it comes from.
    let (cj, cu) = match cj.str().filter(|_| k > 6) {
        None => (Ok(cj), cu),
        Some(u) => match env.load(u) {
            None => (Err(E::LoadingRemoteContextFailed), None),
            Some((d, u)) => (
                if d.is_obj() { d.get("@context").cloned().ok_or(E::InvalidRemoteContext) } else { Err(E::InvalidRemoteContext) },
                Some(u.to_string()),
            ),
        },
    };
    let want = i.expand(&env, None).and_then(|mut x| {
        norm(&mut x);
        let x = match flat {
            false => x,
            _ => rflat::flatten(&x).map_err(|_| E::ConflictingIndexes)?,
        };
        let base = cu.as_deref().or(i.url).or(i.base);
        rcomp::compact_document_in(&env, &x, &cj?, base, i.url, i.base, arrays, relative)
    });
    let docs = i.loader();
    let got = if flat {
        let mut g = rdf_types::generator::Blank::new();
        let r = glue::block_on(i.remote().flatten_full(&mut (), &mut g, Some(c), &docs, opts, ()));
        r.map_err(|e| e.code())
    } else {
        glue::block_on(i.remote().compact_using(c, &docs, opts)).map_err(|e| e.code())
    }
    .map(|v| J::from_value(&v));
    i.show();
    #[cfg(feature = "replay")]
    println!("context {k} relative {relative} arrays {arrays} flat {flat}");
    if env.unspecified.get() {
        return sym::cover("unspecified");
    }
    compare(&i.doc, &want, &got, k != 13);
}

/// Expansion policies: what happens to terms that need a vocabulary mapping
/// and to terms that have no meaning.
#[no_mangle]
pub extern "C" fn h_api_policy() {
    use json_ld::expansion::{Action, Policy};
    let voc = "http://voc.x/";
    let mut ctx = o(&[
        ("p", t("http://e.x/p")),
        ("r", o(&[("@id", t("http://e.x/r")), ("@type", t("@vocab"))])),
        ("m", o(&[("@id", t("http://e.x/m")), ("@container", t("@type"))])),
        ("n", t("@nest")),
        ("no", N),
    ]);
    let vocab = sym::choice(2) == 1;
    if vocab {
        ctx.set("@vocab", t(voc))
    }
    let leaf = |i: usize| match i {
        0 => t("v"),
        1 => o(&[("@type", t("T")), ("p", t("v"))]),
        2 => o(&[("@type", a(&[t("r"), t("http://e.x/U")])), ("p", t("v"))]),
        3 => o(&[("@value", t("v")), ("@type", t("T"))]),
        4 => o(&[("u", t("v"))]),
        5 => o(&[("n", o(&[("u", t("v")), ("p", t("w"))]))]),
        6 => o(&[("m", o(&[("T", o(&[("p", t("v"))]))]))]),
        7 => o(&[("@id", t("T")), ("p", t("v"))]),
        8 => o(&[("no", t("v")), ("p", t("v"))]),
        9 => o(&[("@reverse", o(&[("u", o(&[("@id", t("http://e.x/a"))]))])), ("p", t("v"))]),
        10 => o(&[("@list", a(&[o(&[("u", t("v"))])]))]),
        11 => o(&[("http://e.x/q", t("v")), ("_:b", t("v")), ("p", t("x"))]),
        _ => a(&[]),
    };
    let (k, i) = (pick(&["p", "r", "u", "http://e.x/q", "@included", "no"]), sym::choice(13));
    let doc = o(&[("@context", ctx), ("@id", t("http://e.x/s")), (k, leaf(i)), ("p", t("z"))]);
    let docs = Docs::default();
    let run = |invalid: Action, vocab: Action, allow_undefined: bool| {
        let mut opts = Options::default();
        opts.expansion_policy = Policy { invalid, vocab, allow_undefined };
        glue::expand(&doc, Some(URL), &docs, opts)
    };
    let keep = run(Action::Keep, Action::Keep, true);
    let drop = run(Action::Keep, Action::Drop, true);
    let reject = run(Action::Keep, Action::Reject, true);
    let strict = run(Action::Keep, Action::Keep, false);
    #[cfg(feature = "replay")]
    {
        use crate::p_expand::show;
        println!("doc    {}\nkeep   {}\ndrop   {}\nreject {}\nstrict {}", doc.print(), show(&keep), show(&drop), show(&reject), show(&strict));
    }
    let keep = match keep {
        Ok(x) => x,
        Err(_) => {
            sym::cover("no expanded form");
            sym::check(reject.is_err() && strict.is_err(), "accepted under a stricter policy only");
            return;
        }
    };
    sym::cover("expanded");
    // Only the vocabulary mapping gives such identifiers.
    let uses = |j: &J| j.print().contains(voc);
    match drop {
        Ok(x) => {
            sym::check(!uses(&x), "a term that needs a vocabulary mapping is not dropped");
            sym::check(uses(&keep) || ld_eq(&keep, &x, false), "what needs no vocabulary mapping is dropped")
        }
        // A typed value without its type.
        Err(_) => sym::check(i == 3, "refused where the vocabulary mapping is not to be used"),
    }
    match reject {
        Ok(x) => {
            sym::check(!uses(&keep), "a term that needs a vocabulary mapping is accepted");
            sym::check(ld_eq(&keep, &x, false), "a policy changes what it does not concern")
        }
        Err(_) => sym::check(uses(&keep), "a document is rejected that needs no vocabulary mapping"),
    }
    // Is there a property without a meaning?
    let undefined = !vocab && (k == "u" || k != "no" && [4, 5, 9, 10].contains(&i));
    match strict {
        Ok(x) => {
            sym::check(!undefined, "an undefined property is accepted");
            sym::check(ld_eq(&keep, &x, false), "a policy changes what it does not concern")
        }
        Err(_) => sym::check(undefined, "a document is rejected that has no undefined property"),
    }
}
