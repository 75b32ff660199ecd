//! Loaders.
use crate::b::*;
use crate::glue::{block_on, val};
use crate::refimpl::json::*;
use crate::sym;
use json_ld::loader::{ExtractContext, FsLoader, NoLoader};
use json_ld::{ChainLoader, Iri, IriBuf, LoadError, Loader, Profile, RemoteContextReference, RemoteDocument, RemoteDocumentReference};
use rdf_types::vocabulary::{IndexVocabulary, IriVocabulary, IriVocabularyMut};
use std::collections::{BTreeMap, HashMap};
use std::path::{Component, Path, PathBuf};

fn iri(s: &str) -> IriBuf {
    Iri::new(s).unwrap().to_owned()
}
/// The segments of the path of an URL without dot segments.
fn segments(path: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let all: Vec<&str> = path.split('/').skip(1).collect();
    for (i, s) in all.iter().enumerate() {
        let last = i + 1 == all.len();
        match *s {
            "." | ".." => {
                if *s == ".." {
                    out.pop();
                }
                if last {
                    out.push("".into())
                }
            }
            s => out.push(s.into()),
        }
    }
    // A final slash changes nothing about the place.
    if out.last().is_some_and(|s| s.is_empty()) {
        out.pop();
    }
    out
}
/// Mount points of the file system loader.
#[no_mangle]
pub extern "C" fn h_load_fs() {
    let mounts: &[(&str, &str)] = match sym::choice(4) {
        0 => &[("http://e.x/c", "/m")],
        1 => &[("http://e.x/c/a", "/n"), ("http://e.x/c", "/m")],
        2 => &[("http://e.x/c", "m/k"), ("http://e.x/c/a", "/n")],
        _ => &[("http://f.x/c", "/m"), ("https://e.x/c", "/k"), ("http://e.x/d", "/n")],
    };
    let root = pick(&["http://e.x", "https://e.x", "http://f.x", "http://e.x:80"]);
    let path = match sym::choice(3) {
        0 => format!("/c{}", sy("?????"[..sym::choice(6)].as_ref(), b"a/.?#")),
        1 => format!("/{}/c/a", sy("???"[..sym::choice(4)].as_ref(), b"ac/.")),
        _ => format!("/c/{}", sy("?b?"[..sym::choice(4)].as_ref(), b"a:~ \\")),
    };
    let text = format!("{root}{path}");
    let Ok(url) = Iri::new(&text) else { return };
    let mut l = FsLoader::new();
    for (u, p) in mounts {
        l.mount(iri(u), p)
    }
    let end = path.find(|c| c == '?' || c == '#').unwrap_or(path.len());
    let segs = segments(&path[..end]);
    let mut want: Option<PathBuf> = None;
    for (u, p) in mounts {
        let (r, m) = u.split_at(u.find("x/").unwrap() + 1);
        let under = segments(m);
        if r == root && segs.len() >= under.len() && segs[..under.len()] == under[..] {
            let mut w = PathBuf::from(p);
            for s in &segs[under.len()..] {
                w.push(s)
            }
            want = Some(w);
            break;
        }
    }
    let got = l.filepath(url);
    sym::cover("mapped");
    #[cfg(feature = "replay")]
    println!("{mounts:?} {url} {got:?} want {want:?}");
    if let Some(g) = &got {
        sym::check(g.components().all(|c| c != Component::ParentDir), "a path leads out of its directory");
        sym::check(mounts.iter().any(|(_, p)| g.starts_with(Path::new(p))), "a path is not in the mounted directory");
    }
    sym::check(got == want, "an URL leads to the wrong file");
    if got.is_none() {
        match block_on(l.load(url)) {
            Ok(_) => sym::fail("a document is loaded from nowhere"),
            Err(e) => sym::check(e.target == *url, "the error is about another document"),
        }
    }
}

fn doc(k: usize) -> RemoteDocument {
    RemoteDocument::new(Some(iri(&format!("http://e.x/at{k}"))), None, val(&o(&[("k", n(&k.to_string()))])))
}
fn same(a: &RemoteDocument, b: &RemoteDocument) -> bool {
    a.url == b.url && a.content_type == b.content_type && a.context_url == b.context_url && a.profile == b.profile && a.document == b.document
}
struct Maps(HashMap<IriBuf, RemoteDocument>, BTreeMap<IriBuf, RemoteDocument>);
fn ask(l: &impl Loader, url: &Iri, want: Option<&RemoteDocument>) {
    sym::cover("asked");
    let check = |r: Result<RemoteDocument, LoadError>| match (r, want) {
        (Ok(d), Some(w)) => sym::check(same(&d, w), "another document is loaded"),
        (Ok(_), None) => sym::fail("a document is loaded from nowhere"),
        (Err(_), Some(_)) => sym::fail("a document is not loaded"),
        (Err(e), None) => sym::check(e.target == *url, "the error is about another document"),
    };
    match sym::choice(4) {
        0 => check(block_on(l.load(url))),
        1 => {
            let mut v: IndexVocabulary = IndexVocabulary::new();
            v.insert(Iri::new("http://e.x/at9").unwrap());
            let i = v.insert(url);
            check(block_on(l.load_with(&mut v, i)).map(|d| d.map_iris(|i| v.iri(&i).unwrap().to_owned())))
        }
        2 => check(block_on(RemoteDocumentReference::iri(url.to_owned()).load_with(rdf_types::vocabulary::no_vocabulary_mut(), l))),
        _ => check(
            block_on(RemoteDocumentReference::iri(url.to_owned()).loaded_with(rdf_types::vocabulary::no_vocabulary_mut(), l))
                .map(|d| d.into_owned()),
        ),
    }
}
/// Maps, chains and loaders that load nothing.
#[no_mangle]
pub extern "C" fn h_load_chain() {
    let mut m = Maps(HashMap::new(), BTreeMap::new());
    let keys = ["http://e.x/a", "http://e.x/b"];
    let mut which = vec![];
    for k in 0..4 {
        if sym::choice(2) == 1 {
            which.push(k);
            let key = iri(keys[k % 2]);
            let mut d = doc(k);
            if k == 3 {
                d.context_url = Some(iri("http://e.x/ctx"));
                d.content_type = Some("application/json".parse().unwrap());
                d.profile.insert(Profile::new(Iri::new("http://e.x/profile").unwrap()));
                d.profile.insert(Profile::new(Iri::new("http://www.w3.org/ns/json-ld#expanded").unwrap()));
            }
            if k < 2 {
                m.0.insert(key, d);
            } else {
                m.1.insert(key, d);
            }
        }
    }
    let text = format!("http://e.x/{}", sy("?", b"abc"));
    let url = Iri::new(&text).unwrap();
    let (first, second) = (m.0.get(url).cloned(), m.1.get(url).cloned());
    let (f, s) = (first.as_ref(), second.as_ref());
    match sym::choice(8) {
        0 => ask(&m.0, url, f),
        1 => ask(&m.1, url, s),
        2 => ask(&ChainLoader::new(&m.0, &m.1), url, f.or(s)),
        3 => ask(&ChainLoader::new(&m.1, &m.0), url, s.or(f)),
        4 => ask(&ChainLoader::new(NoLoader, ChainLoader::new(&m.0, &m.1)), url, f.or(s)),
        5 => ask(&ChainLoader::new(ChainLoader::new(&m.1, NoLoader), &m.0), url, s.or(f)),
        6 => ask(&&m.1, url, s),
        _ => ask(&ChainLoader::new(NoLoader, FsLoader::new()), url, None),
    }
}
/// Contexts out of documents.
#[no_mangle]
pub extern "C" fn h_load_context() {
    let ctx = pick(&[N, t("http://e.x/o"), o(&[]), o(&[("a", t("http://e.x/a"))]), a(&[N, o(&[("@vocab", t("http://e.x/"))])])]);
    let bad = pick(&[n("1"), T, o(&[("@version", n("1"))]), o(&[("a", n("1"))]), a(&[n("1")])]);
    let (d, want) = match sym::choice(6) {
        0 => (o(&[("@context", ctx.clone())]), Some(ctx)),
        1 => (o(&[("b", n("1")), ("@context", ctx.clone()), ("@type", t("x"))]), Some(ctx)),
        2 => (o(&[("@context", bad)]), None),
        3 => (o(&[("@contexts", ctx)]), None),
        4 => (a(&[o(&[("@context", ctx)])]), None),
        _ => (ctx, None),
    };
    let d = match (&d, sym::choice(2)) {
        (J::Obj(e), 1) if e.len() == 1 => J::Obj(vec![e[0].clone(), e[0].clone()]),
        _ => d,
    };
    let twice = matches!(&d, J::Obj(e) if e.len() == 2 && e[0].0 == e[1].0);
    let want = if twice { None } else { want };
    #[cfg(feature = "replay")]
    println!("{} want {:?}", d.print(), want.as_ref().map(|w| w.print()));
    let check = |c: Option<json_ld::syntax::Context>| {
        sym::cover("read");
        match (c, &want) {
            (Some(c), Some(w)) => {
                let v = json_ld::syntax::IntoJson::into_json(c);
                sym::check(json_eq(&J::from_value(&v), w), "another context is read")
            }
            (Some(_), None) => sym::fail("a context is read from nowhere"),
            (None, Some(_)) => sym::fail("a context is not read"),
            _ => (),
        }
    };
    match sym::choice(3) {
        0 => check(val(&d).into_ld_context().ok()),
        k => {
            let mut m: HashMap<IriBuf, RemoteDocument> = HashMap::new();
            m.insert(iri("http://e.x/a"), RemoteDocument::new(Some(iri("http://e.x/b")), None, val(&d)));
            let r = RemoteContextReference::iri_of("http://e.x/a");
            let v = rdf_types::vocabulary::no_vocabulary_mut();
            let got = if k == 1 { block_on(r.load_context_with(v, &m)) } else { block_on(r.loaded_context_with(v, &m)).map(|c| c.into_owned()) };
            if let Ok(c) = &got {
                sym::check(c.url == Some(iri("http://e.x/b")), "the URL of a context is lost")
            }
            check(got.ok().map(|c| c.document))
        }
    }
}
trait Of {
    fn iri_of(s: &str) -> Self;
}
impl Of for RemoteContextReference<IriBuf> {
    fn iri_of(s: &str) -> Self {
        Self::Iri(iri(s))
    }
}

#[cfg(feature = "http")]
pub mod http {
    use super::*;
    use json_ld::loader::reqwest::{Error, Options, ReqwestLoader};
    use reqwest::{Answer, Client, Script};
    use std::rc::Rc;

    const LD: &str = "application/ld+json";
    const CONTEXT: &str = "http://www.w3.org/ns/json-ld#context";

    fn client(answers: Vec<Answer>) -> Client {
        Client(Rc::new(Script { answers, asked: Default::default() }))
    }
    fn loader(c: &Client, max: usize) -> ReqwestLoader {
        ReqwestLoader::new_using(Options {
            request_profile: vec![],
            max_redirections: max,
            client: reqwest_middleware::ClientBuilder::new(c.clone()).build(),
        })
    }
    fn answer(url: &str, headers: Vec<(&'static str, String)>) -> Answer {
        Answer {
            url: url.into(),
            at: url.into(),
            status: 200,
            headers: headers.into_iter().map(|(k, v)| (k, v.into_bytes())).collect(),
            body: format!("{{\"from\": \"{url}\"}}").into_bytes(),
        }
    }
    /// What a response says, in order: its links, with relation types and type.
    struct Link {
        href: &'static str,
        rel: Vec<&'static str>,
        ty: Option<&'static str>,
    }
    fn quoted(v: &str) -> String {
        let token = v.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
        if token && !v.is_empty() && sym::choice(2) == 1 {
            v.to_string()
        } else {
            format!("\"{v}\"")
        }
    }
    fn param(name: &str, v: &str) -> String {
        let sep = pick(&[";", "; ", " ; ", ";  "]);
        format!("{sep}{name}={}", quoted(v))
    }
    impl Link {
        /// `free`: written in every way, or in one of some ways.
        fn text(&self, free: bool) -> String {
            // Separator, name, quotes, repetition, extra parameter.
            let (sep, rel, token, again, extra) = if free {
                (pick(&[";", "; ", " ; ", ";  "]), pick(&["rel", "Rel"]), sym::choice(2) == 1, sym::choice(2) == 1, sym::choice(4))
            } else {
                pick(&[("; ", "rel", false, false, 0), (";", "rel", true, true, 1), (" ; ", "REL", false, false, 2), ("; ", "rel", true, false, 3)])
            };
            let param = |n: &str, v: &str| {
                let is = v.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
                if token && is {
                    format!("{sep}{n}={v}")
                } else {
                    format!("{sep}{n}=\"{v}\"")
                }
            };
            let mut ps = vec![];
            if !self.rel.is_empty() {
                ps.push(param(rel, &self.rel.join(" ")))
            }
            if let Some(t) = self.ty {
                ps.push(param("type", t))
            }
            match extra {
                1 => ps.insert(0, format!("{sep}title=\"a, b; c <d>\"")),
                2 => ps.push(format!("{sep}crossorigin")),
                3 => ps.reverse(),
                _ => (),
            }
            if again && !self.rel.is_empty() {
                // Only the first counts.
                ps.push(param("rel", "other"))
            }
            format!("<{}>{}", self.href, ps.concat())
        }
    }
    /// Link headers: one line each, or several to a line.
    fn links(ls: &[Link], out: &mut Vec<(&'static str, String)>) {
        let t: Vec<String> = ls.iter().map(|l| l.text(ls.len() == 1)).collect();
        if t.len() > 1 && sym::choice(2) == 1 {
            out.push(("Link", t.join(pick(&[", ", ",", " , "]))))
        } else {
            for t in t {
                out.push(("Link", t))
            }
        }
    }
    type Want = Result<(String, Option<String>, Vec<String>), &'static str>;
    fn judge(c: &Client, got: Result<RemoteDocument, LoadError>, from: &str, ty: &str, want: Want) {
        sym::cover("answered");
        #[cfg(feature = "replay")]
        {
            for a in &c.0.answers {
                println!("{} at {} {} {:?}", a.url, a.at, a.status, a.headers.iter().map(|(k, v)| (k, String::from_utf8_lossy(v))).collect::<Vec<_>>());
            }
            match &got {
                Ok(d) => println!("got  {:?} {:?} {:?} {:?} {}", d.url, d.content_type, d.context_url, d.profile, J::from_value(&d.document).print()),
                Err(e) => println!("got  {e} ({})", e.target),
            }
            println!("want {want:?} {ty} {from}");
        }
        let _ = c;
        match (got, want) {
            (Ok(d), Ok((url, context, profile))) => {
                sym::check(d.url.as_ref().map(|u| u.as_str()) == Some(url.as_str()), "the URL of the document is wrong");
                sym::check(
                    d.content_type.as_ref().is_some_and(|m| m.essence_str().eq_ignore_ascii_case(ty)),
                    "the media type of the document is wrong",
                );
                sym::check(d.context_url.as_ref().map(|u| u.as_str()) == context.as_deref(), "the linked context is wrong");
                let mut p: Vec<String> = d.profile.iter().map(|p| p.iri().as_str().to_string()).collect();
                p.sort();
                let mut w = profile;
                w.sort();
                w.dedup();
                sym::check(p == w, "the profile of the document is wrong");
                sym::check(json_eq(&J::from_value(&d.document), &o(&[("from", t(from))])), "another document is loaded");
            }
            (Err(e), Err(w)) => {
                let is = match e.cause.downcast_ref::<Error>() {
                    Some(Error::QueryFailed(_)) => "status",
                    Some(Error::InvalidContentType) => "type",
                    Some(Error::MultipleContextLinkHeaders) => "links",
                    Some(Error::TooManyRedirections) => "redirections",
                    Some(Error::Parse(_)) => "parse",
                    Some(Error::Reqwest(_)) | None => "client",
                };
                sym::check(is == w, "a load fails for the wrong reason")
            }
            (Ok(_), Err(_)) => sym::fail("a document is loaded that should be refused"),
            (Err(_), Ok(_)) => sym::fail("a document is not loaded"),
        }
    }
    fn resolve(r: &str, base: &str) -> String {
        iref::IriRef::new(r).unwrap().resolved(Iri::new(base).unwrap()).to_string()
    }
    fn is_json(ty: &str) -> bool {
        let t = ty.to_ascii_lowercase();
        t == "application/json" || t.ends_with("+json")
    }
    /// Content types.
    #[no_mangle]
    pub extern "C" fn h_http_type() {
        let ty = pick(&[
            "application/json", LD, "Application/LD+JSON", "application/activity+json", "text/html", "application/xml", "application/jsonp",
            "application/ld+jsonx", "text/json",
        ]);
        let profile = match sym::choice(6) {
            0 => None,
            1 => Some("http://www.w3.org/ns/json-ld#expanded"),
            2 => Some("http://e.x/p http://www.w3.org/ns/json-ld#flattened"),
            3 => Some("http://www.w3.org/ns/json-ld#framed http://www.w3.org/ns/json-ld#framed"),
            4 => Some("http://www.w3.org/ns/json-ld#compacted http://www.w3.org/ns/json-ld#context"),
            _ => Some("http://www.w3.org/ns/json-ld#other not-absolute"),
        };
        if ty == "text/json" {
            return; // Neither a JSON type for some, nor refused by all.
        }
        let mut text = ty.to_string();
        let mut ps = vec![];
        if let Some(p) = profile {
            ps.push(param(pick(&["profile", "Profile"]), p))
        }
        match sym::choice(4) {
            1 => ps.insert(0, param("charset", "utf-8")),
            2 => ps.push(param("charset", "utf-8")),
            3 => ps.push(param("q", "a b;c=\\d,")),
            _ => (),
        }
        for p in ps {
            text += &p
        }
        let ls = match sym::choice(3) {
            0 => vec![],
            1 => vec![Link { href: "c", rel: vec![CONTEXT], ty: Some(LD) }],
            _ => vec![Link { href: "c", rel: vec!["context"], ty: None }],
        };
        let mut hs = vec![("Content-Type", text)];
        for l in &ls {
            hs.push(("Link", format!("<{}>; rel=\"{}\"", l.href, l.rel[0])))
        }
        let url = "http://e.x/a/b";
        let mut body_bad = false;
        let mut an = answer(url, hs);
        match sym::choice(6) {
            1 => {
                an.body.truncate(5);
                body_bad = true
            }
            2 => {
                an.body[11] = 0xff;
                body_bad = true
            }
            _ => (),
        }
        let c = client(vec![an]);
        let got = block_on(loader(&c, 8).load(Iri::new(url).unwrap()));
        let want = if !is_json(ty) {
            Err("type")
        } else if body_bad {
            Err("parse")
        } else {
            let context = ls.iter().filter(|l| l.rel[0] == CONTEXT && !ty.eq_ignore_ascii_case(LD)).map(|_| "http://e.x/a/c".to_string()).next();
            let ps = profile.unwrap_or("").split(' ').filter(|p| p.contains(':')).map(|p| p.to_string()).collect();
            Ok((url.to_string(), context, ps))
        };
        judge(&c, got, url, ty, want)
    }
    /// Links to contexts and to alternates.
    #[no_mangle]
    pub extern "C" fn h_http_links() {
        let ty = pick(&["application/json", LD, "text/html"]);
        let mut ls = vec![];
        let many = 1 + sym::choice(2);
        for k in 0..many {
            ls.push(Link {
                href: if many > 1 { ["c", "http://f.x/"][k] } else { pick(&["c", "/d", "http://f.x/"]) },
                rel: match sym::choice(6) {
                    0 => vec![CONTEXT],
                    1 => vec!["alternate"],
                    2 => vec!["next", CONTEXT],
                    3 => vec!["alternate", "next"],
                    4 => vec!["alternates"],
                    _ => vec![],
                },
                ty: pick(&[Some(LD), Some("text/html"), None]),
            })
        }
        let mut hs = vec![("Content-Type", ty.to_string())];
        links(&ls, &mut hs);
        let url = "http://e.x/a/b";
        let full = |h: &str| resolve(h, url);
        let mut an = vec![answer(url, hs)];
        for h in ["c", "/d", "http://f.x/"] {
            an.push(answer(&full(h), vec![("content-type", LD.to_string())]))
        }
        let c = client(an);
        let got = block_on(loader(&c, 8).load(Iri::new(url).unwrap()));
        let mut from = url.to_string();
        let (mut ty, mut contexts) = (ty, vec![]);
        let want = match ty {
            "text/html" => match ls.iter().find(|l| l.rel.contains(&"alternate") && l.ty == Some(LD)) {
                Some(l) => {
                    from = full(l.href);
                    ty = LD;
                    Ok((from.clone(), None, vec![]))
                }
                None => Err("type"),
            },
            LD => Ok((from.clone(), None, vec![])),
            _ => {
                contexts.extend(ls.iter().filter(|l| l.rel.contains(&CONTEXT)).map(|l| full(l.href)));
                match contexts.len() {
                    0 | 1 => Ok((from.clone(), contexts.pop(), vec![])),
                    _ => Err("links"),
                }
            }
        };
        judge(&c, got, &from, ty, want)
    }
    /// Redirections, of both kinds.
    #[no_mangle]
    pub extern "C" fn h_http_redirect() {
        let urls = ["http://e.x/0", "http://e.x/a/1", "http://f.x/b/2", "http://f.x/3"];
        let next = ["a/1", "http://f.x/b/2", "../3", "3"];
        let hops = sym::choice(4);
        let max = sym::choice(4);
        let status = pick(&[200u16, 404, 301, 204, 500]);
        let moved = sym::choice(3);
        let mut an = vec![];
        for k in 0..hops {
            an.push(answer(urls[k], vec![("Content-Type", "text/html".into()), ("Link", format!("<{}>; rel=\"alternate\"; type=\"{LD}\"", next[k]))]))
        }
        let mut last = answer(urls[hops], vec![("Content-Type", "application/json".into()), ("Link", format!("<ctx>; rel=\"{CONTEXT}\""))]);
        last.status = status;
        let mut from = urls[hops].to_string();
        match moved {
            1 => {
                last.at = "http://g.x/moved/".into();
                from = last.at.clone()
            }
            2 if hops > 0 => {
                // The first answer comes from elsewhere: its link is relative to that.
                an[0].at = "http://g.x/moved/here".into();
                if hops == 1 {
                    last.url = "http://g.x/moved/a/1".into();
                    last.at = last.url.clone();
                    from = last.at.clone();
                }
            }
            _ => (),
        }
        if moved == 2 && hops > 1 {
            an[1].url = "http://g.x/moved/a/1".into();
            an[1].at = an[1].url.clone();
        }
        let body = urls[hops];
        an.push(last);
        let ring = sym::choice(4) == 1;
        if ring {
            let u = an[hops].url.clone();
            an[hops] = answer(&u, vec![("Link", format!("<{u}>; rel=\"alternate\"; type=\"{LD}\""))]);
        }
        let c = client(an);
        let got = block_on(loader(&c, max).load(Iri::new(urls[0]).unwrap()));
        let want = if ring || hops > max {
            Err("redirections")
        } else if status != 200 {
            Err("status")
        } else {
            Ok((from.clone(), Some(resolve("ctx", &from)), vec![]))
        };
        let asked = c.0.asked.borrow().len();
        sym::check(asked == if ring { max + 1 } else { hops.min(max) + 1 }, "the number of requests is wrong");
        judge(&c, got, body, "application/json", want)
    }
    /// What is asked for.
    #[no_mangle]
    pub extern "C" fn h_http_accept() {
        let names = [
            "http://www.w3.org/ns/json-ld#expanded", "http://www.w3.org/ns/json-ld#compacted", "http://www.w3.org/ns/json-ld#context",
            "http://www.w3.org/ns/json-ld#flattened", "http://www.w3.org/ns/json-ld#framed", "http://e.x/p",
        ];
        let mut ps = vec![];
        for _ in 0..sym::choice(4) {
            ps.push(names[sym::choice(6)])
        }
        let url = "http://e.x/a";
        let c = client(vec![answer(url, vec![("Content-Type", LD.into())])]);
        let l = ReqwestLoader::new_using(Options {
            request_profile: ps.iter().map(|p| Profile::new(Iri::new(p).unwrap())).collect(),
            client: reqwest_middleware::ClientBuilder::new(c.clone()).build(),
            ..Options::default()
        });
        let got = block_on(l.load(Iri::new(url).unwrap()));
        {
            let asked = c.0.asked.borrow();
            sym::check(asked.len() == 1 && asked[0].0 == url, "another document is asked for");
            let mut all = asked[0].1.get_all("accept").iter();
            let text = all.next().and_then(|v| v.to_str().ok()).unwrap_or("").to_string();
            sym::check(all.next().is_none(), "several accept headers");
            #[cfg(feature = "replay")]
            println!("accept {text}");
            let (mut ld, mut json) = (None, false);
            let mut rest = &text[..];
            // Media ranges; commas and semicolons may be quoted.
            loop {
                let mut q = false;
                let mut end = rest.len();
                for (i, ch) in rest.char_indices() {
                    match ch {
                        '"' => q = !q,
                        ',' if !q => {
                            end = i;
                            break;
                        }
                        _ => (),
                    }
                }
                let r = rest[..end].trim();
                let (ty, params) = r.split_once(';').unwrap_or((r, ""));
                match ty.trim() {
                    "application/json" => json = true,
                    LD => ld = Some(params.trim().to_string()),
                    _ => (),
                }
                if end == rest.len() {
                    break;
                }
                rest = &rest[end + 1..]
            }
            sym::check(json, "JSON is not accepted");
            let want = if ps.is_empty() { "".to_string() } else { format!("profile=\"{}\"", ps.join(" ")) };
            sym::check(ld.as_deref() == Some(&want), "the profiles asked for are wrong");
        }
        judge(&c, got, url, LD, Ok((url.into(), None, vec![])))
    }
    /// Any header at all: an answer, or an error.
    #[no_mangle]
    pub extern "C" fn h_http_junk() {
        let (ty, link) = match sym::choice(2) {
            0 => (format!("application/ld+json{}", sy("?????"[..sym::choice(6)].as_ref(), b";= \"a\\")), "<c>".to_string()),
            _ => ("application/json".to_string(), sy("??????"[..sym::choice(7)].as_ref(), b";= \"a<>,")),
        };
        let url = "http://e.x/a";
        let c = client(vec![answer(url, vec![("Content-Type", ty), ("Link", link)])]);
        let got = block_on(loader(&c, 1).load(Iri::new(url).unwrap()));
        sym::cover("answered");
        if let Ok(d) = got {
            sym::check(d.context_url.is_none() && d.profile.is_empty(), "something is made out of a header that does not say it")
        }
    }
}
