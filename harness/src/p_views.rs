//! The views of expanded objects: accessors, entries, iterators, renaming.
use crate::b::*;
use crate::glue::{self, Doc};
use crate::p_doc::read;
use crate::refimpl::ctx::is_blank;
use crate::refimpl::json::*;
use crate::sym;
use contextual::WithContext;
use iref::{Iri, IriBuf};
use json_ld::object::node::{self, Properties, ReverseProperties};
use json_ld::object::value;
use json_ld::object::{EntryRef, IndexedEntryRef, IndexedEntryValueRef};
use json_ld::quad::{ObjectRef, PropertyRef};
use json_ld::syntax::IntoJsonWithContext;
use json_ld::{Id, Indexed, LdQuads, Node, Object, Term, Value};
use rdf_types::{BlankId, BlankIdBuf};

type Obj = Indexed<Object<IriBuf, BlankIdBuf>>;
type Nod = Indexed<Node<IriBuf, BlankIdBuf>>;
type I = Id<IriBuf, BlankIdBuf>;

const P: &str = "http://e.x/p";
const Q: &str = "http://e.x/q";
const A: &str = "http://e.x/a";
const C: &str = "http://e.x/T";

fn ck(c: bool, l: &str) {
    sym::check(c, l)
}
fn is_iri(x: &str) -> bool {
    Iri::new(x).is_ok()
}
fn strs(j: Option<&J>) -> Vec<&str> {
    match j {
        None => vec![],
        Some(J::Arr(a)) => a.iter().map(|x| x.str().unwrap()).collect(),
        Some(x) => vec![x.str().unwrap()],
    }
}
fn arr(j: &J) -> &[J] {
    match j {
        J::Arr(a) => a,
        _ => &[],
    }
}
fn id_is(i: &I, x: &str) {
    ck(i.as_str() == x && i.with(&()).as_str() == x, "an identifier is another string");
    ck(i.is_blank() == is_blank(x) && i.is_iri() == is_iri(x), "an identifier is of another kind");
    ck(i.is_valid() == (is_blank(x) || is_iri(x)), "an identifier is valid or not");
    ck(i.as_iri().map(|x| x.as_str()) == Some(x).filter(|x| is_iri(x)), "an identifier is another IRI");
    ck(i.as_blank().map(|x| x.as_str()) == Some(x).filter(|x| is_blank(x)), "an identifier is another blank node");
    ck(i.clone().into_blank().is_some() == is_blank(x), "an identifier is another blank node");
    ck(*i == I::from_string(x.to_string()), "an identifier differs from what it is written as");
    if let Ok(iri) = Iri::new(x) {
        ck(*i == iri.to_owned(), "an identifier differs from its IRI")
    } else {
        ck(*i != IriBuf::new(A.to_string()).unwrap(), "an identifier equals an IRI")
    }
    ck(i.clone().into_term() == *i && Term::<IriBuf, BlankIdBuf>::Null != *i, "an identifier differs from its term");
    ck(i.to_string() == x, "an identifier prints as something else");
}

fn value_is(v: &Value<IriBuf>, j: &J, both: bool) {
    let x = j.get("@value").unwrap();
    let ty = j.get("@type").and_then(J::str);
    let json = ty == Some("@json");
    let lang = j.has("@language") || j.has("@direction");
    ck(v.as_str() == if json { None } else { x.str() }, "as_str of a value");
    ck(v.as_bool() == match x { J::Bool(b) if !json => Some(*b), _ => None }, "as_bool of a value");
    ck(v.as_number().map(|n| n.as_str()) == match x { J::Num(n) if !json => Some(n.as_str()), _ => None }, "as_number of a value");
    ck(v.literal_type().map(|x| x.as_str()) == if json { None } else { ty }, "literal_type of a value");
    ck(v.as_literal().is_some() == !(json || lang), "as_literal of a value");
    if let Some((l, t)) = v.as_literal() {
        ck(t.map(|x| x.as_str()) == ty, "type of a literal");
        ck(&J::from_value(&l.clone().into_json()) == x, "literal of a value");
        ck(l.as_str() == v.as_str() && l.as_bool() == v.as_bool() && l.as_number() == v.as_number(), "views of a literal")
    }
    ck(
        match v.typ() {
            None => ty.is_none(),
            Some(value::TypeRef::Json) => json,
            Some(value::TypeRef::Id(x)) => ty == Some(x.as_str()),
        },
        "typ of a value",
    );
    ck(v.language().map(|x| x.as_str()) == j.get("@language").and_then(J::str), "language of a value");
    ck(v.direction().map(|x| x.as_str()) == j.get("@direction").and_then(J::str), "direction of a value");
    if let Value::LangString(s) = v {
        let (d, l, r) = s.parts();
        ck(Some(d) == x.str() && l.map(|x| x.as_str()) == v.language().map(|x| x.as_str()) && r.copied() == v.direction(), "parts of a string");
        let s = s.as_lang_str();
        ck(Some(s.as_str()) == x.str() && s.language() == v.language() && s.direction() == v.direction(), "parts of a string");
    }
    // Entries, from either end.
    let want: Vec<&str> = ["@value", "@type", "@language", "@direction"].into_iter().filter(|k| j.has(k)).collect();
    let key = |e: value::EntryRef<IriBuf>| {
        let k = e.key();
        ck(k.as_keyword().into_str() == k.as_str(), "key of an entry");
        ck(
            match (e.value(), e.into_value()) {
                (value::EntryValueRef::Value(y), value::EntryValueRef::Value(_)) => {
                    k.as_str() == "@value"
                        && match y {
                            value::ValueEntryRef::Literal(l) => &J::from_value(&l.clone().into_json()) == x,
                            value::ValueEntryRef::LangString(s) => Some(s) == x.str(),
                            value::ValueEntryRef::Json(y) => &J::from_value(y) == x,
                        }
                }
                (value::EntryValueRef::Type(y), value::EntryValueRef::Type(_)) => {
                    k.as_str() == "@type"
                        && match y {
                            value::TypeRef::Json => json,
                            value::TypeRef::Id(y) => ty == Some(y.as_str()),
                        }
                }
                (value::EntryValueRef::Language(y), value::EntryValueRef::Language(_)) => {
                    k.as_str() == "@language" && Some(y.as_str()) == j.get("@language").and_then(J::str)
                }
                (value::EntryValueRef::Direction(y), value::EntryValueRef::Direction(_)) => {
                    k.as_str() == "@direction" && Some(y.as_str()) == j.get("@direction").and_then(J::str)
                }
                _ => false,
            },
            "entry of a value",
        );
        k.as_str()
    };
    let (mut e, mut from, mut to) = (v.entries(), 0, want.len());
    loop {
        ck(e.len() == to - from, "number of entries of a value");
        let front = !both || sym::choice(2) == 0;
        let n = if front { e.next() } else { e.next_back() };
        if from == to {
            ck(n.is_none(), "too many entries");
            break;
        }
        match n {
            None => sym::fail("too few entries"),
            Some(x) => ck(key(x) == if front { want[from] } else { want[to - 1] }, "entries of a value"),
        }
        if front { from += 1 } else { to -= 1 }
    }
}

fn list_is<'a>(x: impl IntoIterator<Item = &'a Obj>, j: &[J]) {
    let x: Vec<_> = x.into_iter().collect();
    ck(x.len() == j.len(), "number of objects");
    for (x, j) in x.iter().zip(j) {
        object_is(x, j)
    }
}
fn nodes_are<'a>(x: impl IntoIterator<Item = &'a Nod>, j: &[J]) {
    let x: Vec<_> = x.into_iter().collect();
    ck(x.len() == j.len(), "number of nodes");
    for (x, j) in x.iter().zip(j) {
        ck(x.index() == j.get("@index").and_then(J::str), "index of a node");
        node_is(x, j)
    }
}
fn is_prop(k: &str) -> bool {
    !k.starts_with('@')
}

fn node_is(n: &Node<IriBuf, BlankIdBuf>, j: &J) {
    let id = j.get("@id").and_then(J::str);
    if let (Some(i), Some(x)) = (&n.id, id) {
        id_is(i, x)
    }
    ck(n.id.is_some() == id.is_some(), "identifier of a node");
    ck(n.as_str() == id, "as_str of a node");
    ck(n.as_iri().map(|x| x.as_str()) == id.filter(|x| is_iri(x)), "as_iri of a node");
    let types = strs(j.get("@type"));
    ck(n.types().len() == types.len(), "types of a node");
    for (x, y) in n.types().iter().zip(&types) {
        id_is(x, y)
    }
    for x in [A, C, "_:b0"] {
        ck(n.has_type(&I::from_string(x.to_string())) == types.contains(&x), "has_type");
        if let Ok(i) = IriBuf::new(x.to_string()) {
            ck(n.has_type(&i) == types.contains(&x), "has_type of an IRI")
        }
    }
    let keys: Vec<&str> = j.obj().unwrap().iter().map(|x| x.0.as_str()).filter(|k| *k != "@index").collect();
    let only = |ks: &[&str]| keys.iter().all(|k| ks.contains(k));
    let graph = j.has("@graph");
    ck(n.is_empty() == only(&["@id"]), "is_empty");
    ck(n.is_graph() == (graph && only(&["@id", "@graph"])), "is_graph");
    ck(n.is_simple_graph() == (graph && only(&["@graph"])), "is_simple_graph");
    ck(n.is_unnamed_graph() == (graph && only(&["@graph"])), "is_unnamed_graph");
    ck(n.clone().into_unnamed_graph().is_ok() == n.is_unnamed_graph(), "into_unnamed_graph");
    ck(n.graph().is_some() == graph && n.graph_entry().is_some() == graph, "graph");
    ck(n.included().is_some() == j.has("@included") && n.included_entry().is_some() == j.has("@included"), "included");
    ck(n.reverse_properties().is_some() == j.has("@reverse"), "reverse_properties");
    for (k, w) in [("@id", "@id"), ("@type", "@type"), ("@graph", "@graph"), ("@included", "@included"), ("@reverse", "@reverse")] {
        let k = json_ld::syntax::Keyword::try_from(k).unwrap();
        ck(n.has_key(&Term::Keyword(k)) == j.has(w), "has_key of a keyword")
    }
    // Properties.
    let props: Vec<&str> = keys.iter().copied().filter(|k| is_prop(k)).collect();
    ck(n.properties().len() == props.len() && n.properties().is_empty() == props.is_empty(), "number of properties");
    for p in [P, Q, "_:b0", "_:b1"] {
        let i = I::from_string(p.to_string());
        let have = j.get(p).map(arr);
        ck(n.has_key(&Term::Id(i.clone())) == have.is_some() && n.properties().contains(&i) == have.is_some(), "has_key of a property");
        let got: Vec<_> = n.get(&i).collect();
        let also: Vec<_> = match (BlankId::new(p), Iri::new(p)) {
            (Ok(b), _) => n.get(b).collect(),
            (_, Ok(i)) => n.get(&i).collect(),
            _ => vec![],
        };
        ck(got.len() == also.len() && got.len() == have.map_or(0, |x| x.len()), "objects of a property");
        ck(n.get_any(&i).is_some() == !got.is_empty(), "get_any of a property");
    }
    for ((p, os), k) in n.properties().iter().zip(&props) {
        id_is(p, k);
        list_is(os, arr(j.get(k).unwrap()))
    }
    // Entries.
    let mut e = n.entries();
    let mut left = keys.len();
    let mut seen = vec![];
    loop {
        ck(e.len() == left, "number of entries of a node");
        let x = match e.next() {
            Some(x) => x,
            None => break,
        };
        left -= 1;
        seen.push(entry_is(&x, j));
    }
    ck(left == 0, "entries of a node");
    ck(keys.iter().all(|k| seen.iter().any(|x| x == k)), "entries of a node");
}
/// Checks an entry of a node; returns its key.
fn entry_is(e: &node::EntryRef<IriBuf, BlankIdBuf>, j: &J) -> String {
    let (k, v) = e.as_key_value();
    let s = k.as_str().to_string();
    ck(e.key().as_str() == s && k.with(&()).into_str() == s, "key of an entry");
    ck(k.as_keyword().map(|k| k.into_str()) == Some(s.as_str()).filter(|s| !is_prop(s)), "keyword of an entry");
    let w = match j.get(&s) {
        Some(w) => w,
        None => sym::fail("an entry that is not there"),
    };
    ck(v.is_json_array() == matches!(w, J::Arr(_)) && v.is_json_object() == matches!(w, J::Obj(_)), "kind of an entry");
    match v {
        node::EntryValueRef::Id(i) => id_is(i, w.str().unwrap()),
        node::EntryValueRef::Type(ts) => {
            ck(ts.len() == arr(w).len(), "number of types");
            for (x, y) in ts.iter().zip(strs(Some(w))) {
                id_is(x, y)
            }
        }
        node::EntryValueRef::Graph(g) => list_is(g, arr(w)),
        node::EntryValueRef::Included(g) => nodes_are(g, arr(w)),
        node::EntryValueRef::Reverse(r) => {
            let w = w.obj().unwrap();
            ck(r.len() == w.len() && r.is_empty() == w.is_empty(), "number of reverse properties");
            for ((p, ns), (k, w)) in r.iter().zip(w) {
                id_is(p, k);
                nodes_are(ns, arr(w));
                ck(r.contains(p) && r.get(p).count() == arr(w).len(), "nodes of a reverse property");
                ck(r.get_any(p).is_some() == !arr(w).is_empty(), "get_any of a reverse property")
            }
        }
        node::EntryValueRef::Property(os) => list_is(os, arr(w)),
    }
    s
}

fn object_is(x: &Obj, j: &J) {
    object_is_(x, j, false)
}
fn object_is_(x: &Obj, j: &J, both: bool) {
    ck(x.index() == j.get("@index").and_then(J::str), "index of an object");
    let (v, l) = (j.has("@value"), j.has("@list"));
    ck(x.is_value() == v && x.as_value().is_some() == v && x.inner().clone().into_value().is_some() == v, "is it a value");
    ck(x.is_list() == l && x.as_list().is_some() == l && x.inner().clone().into_list().is_some() == l, "is it a list");
    let n = !v && !l;
    ck(x.is_node() == n && x.as_node().is_some() == n && x.inner().clone().into_node().is_some() == n, "is it a node");
    ck(x.is_graph() == x.as_node().is_some_and(|n| n.is_graph()), "is it a graph");
    ck(Node::try_from(x.inner().clone()).is_ok() == n, "is it a node");
    for (is, got) in [
        (n, x.clone().into_indexed_node().map(|x| x.index().map(str::to_string))),
        (v, x.clone().into_indexed_value().map(|x| x.index().map(str::to_string))),
        (l, x.clone().into_indexed_list().map(|x| x.index().map(str::to_string))),
    ] {
        ck(got.is_some() == is && got.is_none_or(|i| i.as_deref() == x.index()), "indexed conversion")
    }
    ck(
        x.clone().into_unnamed_graph().is_ok() == (x.index().is_none() && x.as_node().is_some_and(|n| n.is_unnamed_graph())),
        "into_unnamed_graph of an object",
    );
    let id = j.get("@id").and_then(J::str);
    ck(x.id().map(|x| x.as_str()) == id, "identifier of an object");
    ck(x.as_iri().map(|x| x.as_str()) == id.filter(|x| is_iri(x)), "as_iri of an object");
    ck(x.as_str() == if n { id } else { x.as_value().and_then(|x| x.as_str()) }, "as_str of an object");
    ck(x.as_bool() == x.as_value().and_then(|x| x.as_bool()), "as_bool of an object");
    ck(x.as_number() == x.as_value().and_then(|x| x.as_number()), "as_number of an object");
    ck(x.language() == x.as_value().and_then(|x| x.language()), "language of an object");
    let types: Vec<String> = x.inner().types().map(|t| t.as_str().to_string()).collect();
    ck(types == strs(j.get("@type")), "types of an object");
    // Entries.
    let mut e = x.entries();
    let mut left = j.obj().unwrap().len();
    let mut seen: Vec<String> = vec![];
    loop {
        ck(e.len() == left, "number of entries of an object");
        let y = match e.next() {
            Some(x) => x,
            None => break,
        };
        left -= 1;
        let k = y.key();
        let s = k.as_str().to_string();
        ck(k.with(&()).into_str() == s, "key of an entry");
        ck(k.as_keyword().map(|k| k.into_str()) == Some(s.as_str()).filter(|s| !is_prop(s)), "keyword of an entry");
        let (k2, v) = y.as_key_value();
        ck(k2 == k, "key of an entry");
        ck(
            match (&y, v) {
                (IndexedEntryRef::Index(i), IndexedEntryValueRef::Index(w)) => *i == w && s == "@index" && Some(w) == x.index(),
                (IndexedEntryRef::Object(e), IndexedEntryValueRef::Object(_)) => {
                    let t = e.key();
                    ck(t.as_str() == s && t.with(&()).into_str() == s, "key of an entry");
                    match e {
                        EntryRef::Value(e) => v_key(e) == s,
                        EntryRef::List(w) => {
                            list_is(*w, arr(j.get("@list").unwrap()));
                            s == "@list"
                        }
                        EntryRef::Node(e) => entry_is(e, j) == s,
                    }
                }
                _ => false,
            },
            "entry of an object",
        );
        seen.push(s)
    }
    ck(left == 0 && j.obj().unwrap().iter().all(|(k, _)| seen.contains(k)), "entries of an object");
    if let Some(v) = x.as_value() {
        value_is(v, j, both)
    }
    if let Some(l) = x.as_list() {
        ck(l.len() == arr(j.get("@list").unwrap()).len() && l.is_empty() == (l.len() == 0), "length of a list");
        list_is(l, arr(j.get("@list").unwrap()))
    }
    if let Some(n) = x.as_node() {
        node_is(n, j)
    }
}
fn v_key(e: &value::EntryRef<IriBuf>) -> &'static str {
    e.key().as_str()
}

fn one(j: &J) -> Obj {
    match read(&a(&[j.clone()])) {
        Some(d) => d.into_iter().next().unwrap(),
        None => sym::fail("does not read"),
    }
}
fn print_norm(x: impl IntoJsonWithContext<()>) -> String {
    canon(&print(x)).print()
}
/// Entries in order.
fn canon(j: &J) -> J {
    match j {
        J::Arr(x) => J::Arr(x.iter().map(canon).collect()),
        J::Obj(x) => {
            let mut x: Vec<_> = x.iter().map(|(k, v)| (k.clone(), canon(v))).collect();
            x.sort_by(|x, y| x.0.cmp(&y.0));
            J::Obj(x)
        }
        x => x.clone(),
    }
}
fn print(x: impl IntoJsonWithContext<()>) -> J {
    J::from_value(&x.into_json_with(&()))
}

/// Any value object.
fn any_value() -> J {
    let mut x = o(&[]);
    let typed = sym::choice(5);
    let v = match sym::choice(6) {
        0 => t("v"),
        1 => T,
        2 => F,
        3 => n("5"),
        4 => t(""),
        _ => a(&[N, o(&[("@value", T)])]),
    };
    match typed {
        0 => (),
        1 => x.set("@type", t(C)),
        2 => x.set("@type", t("@json")),
        3 => x.set("@language", t("en")),
        _ => x.set("@direction", t("rtl")),
    }
    if typed >= 3 {
        sym::assume(v.str().is_some());
        if typed == 4 && sym::choice(2) == 1 {
            x.set("@language", t("De"))
        }
    } else if typed != 2 {
        sym::assume(!matches!(v, J::Arr(_)))
    }
    x.set("@value", v);
    if sym::choice(2) == 1 {
        x.set("@index", t("i"))
    }
    x
}

/// Values: their views, and changes made to them.
#[no_mangle]
pub extern "C" fn h_views_values() {
    let j = any_value();
    #[cfg(feature = "replay")]
    println!("value {}", j.print());
    let x = one(&j);
    sym::cover("viewed");
    match sym::choice(7) {
        0 => object_is_(&x, &j, true),
        1 => {
            // Another type.
            let mut y = x.into_inner().into_value().unwrap();
            let old = j.get("@type").cloned();
            let lit = y.as_literal().is_some();
            let new = pick(&[None, Some(C), Some(A)]);
            let got = y.set_literal_type(new.map(|x| Iri::new(x).unwrap().to_owned()));
            let mut want = j.clone();
            want.remove("@index");
            if lit {
                want.remove("@type");
                opt(&mut want, "@type", new.map(t))
            }
            ck(got.map(|x| x.as_str().to_string()) == if lit { old.as_ref().and_then(J::str).map(str::to_string) } else { None }, "former type");
            ck(ld_eq(&print(y), &want, false), "value with another type")
        }
        2 => {
            // A mapped type.
            let mut y = x.into_inner().into_value().unwrap();
            let lit = y.as_literal().is_some();
            y.map_literal_type(|t| match t {
                Some(_) => None,
                None => Some(Iri::new(A).unwrap().to_owned()),
            });
            let mut want = j.clone();
            want.remove("@index");
            if lit {
                match want.has("@type") {
                    true => drop(want.remove("@type")),
                    false => want.set("@type", t(A)),
                }
            }
            ck(ld_eq(&print(y), &want, false), "value with a mapped type")
        }
        3 => {
            // Another language or direction.
            if let Object::Value(Value::LangString(mut s)) = x.into_inner() {
                let tag = |x: &str| json_ld::LenientLangTagBuf::new(x.to_string()).0;
                let l = pick(&[None, Some("fr")]);
                let d = pick(&[None, Some(json_ld::Direction::Ltr)]);
                let (mut wl, mut wd) = (j.get("@language").and_then(J::str), s.direction());
                let (ok, want) = match sym::choice(3) {
                    0 => (s.set_language(l.map(tag)).is_ok(), {
                        let w = l.is_some() || wd.is_some();
                        if w {
                            wl = l
                        }
                        w
                    }),
                    1 => (s.set_direction(d).is_ok(), {
                        let w = d.is_some() || wl.is_some();
                        if w {
                            wd = d
                        }
                        w
                    }),
                    _ => (s.set(l.map(tag), d).is_ok(), {
                        let w = d.is_some() || l.is_some();
                        if w {
                            (wl, wd) = (l, d)
                        }
                        w
                    }),
                };
                ck(ok == want, "a string is left without language and direction, or not changed");
                ck(s.language().map(|x| x.as_str()) == wl && s.direction() == wd, "language and direction of a changed string");
                ck(Some(s.as_str()) == j.get("@value").and_then(J::str), "text of a changed string")
            }
        }
        4 => {
            // Without its index, or with another.
            let mut y = x.clone();
            let new = pick(&[None, Some("k")]);
            y.set_index(new.map(str::to_string));
            let mut want = j.clone();
            want.remove("@index");
            opt(&mut want, "@index", new.map(t));
            ck(ld_eq(&print(y.clone()), &want, false), "object with another index");
            let (z, i) = y.into_parts();
            ck(i.as_deref() == new && z == *x.inner(), "parts of an indexed object");
            ck(Indexed::new(z.clone(), x.index().map(str::to_string)) == x, "indexed object made of parts");
            ck(x.clone().map_inner(|_| z) == x, "mapped indexed object")
        }
        5 => {
            // Equivalence is equality for values.
            let k = any_value();
            let y = one(&k);
            let want = ld_eq(&j, &k, false);
            ck(x.equivalent(&y) == want && y.equivalent(&x) == want, "equivalence of values")
        }
        _ => {
            // Renaming.
            let y = x.map_inner(|o| o.map_ids(|i| if i.as_str() == C { Iri::new(A).unwrap().to_owned() } else { i }, |i: I| i));
            let mut want = j.clone();
            if want.get("@type").and_then(J::str) == Some(C) {
                want.set("@type", t(A))
            }
            ck(ld_eq(&print(y), &want, false), "value with another type IRI")
        }
    }
}

fn any_node(deep: bool) -> J {
    let mut x = o(&[]);
    let kid = |d: bool| if d { any_kid() } else { o(&[("@id", t(A))]) };
    opt(&mut x, "@id", pick(&[None, Some(t(A)), Some(t("_:b0")), Some(t("odd"))]));
    match sym::choice(if deep { 3 } else { 5 }) {
        0 => (),
        1 => x.set("@type", a(&[t(C), t("_:b0")])),
        2 => x.set("@type", a(&[t(A)])),
        3 => x.set("@type", a(&[t("odd")])),
        _ => x.set("@type", a(&[])),
    }
    for (k, v) in [
        ("@index", t("i")),
        ("@graph", a(&[kid(deep), o(&[("@value", t("w"))])])),
        ("@included", a(&[o(&[("@id", t("_:b1"))])])),
        ("@reverse", o(&[(Q, a(&[o(&[("@index", t("j")), (P, a(&[o(&[("@value", T)])]))])])), ("_:b0", a(&[]))])),
        (P, a(&[o(&[("@value", t("v"))]), o(&[("@value", t("v"))])])),
        ("_:b0", a(&[o(&[("@list", a(&[o(&[("@id", t("_:b1"))])])), ("@index", t("k"))])])),
    ] {
        if !(deep && (k == "@index" || k == "@included")) && sym::choice(2) == 1 {
            x.set(k, v)
        }
    }
    x
}
fn any_kid() -> J {
    match sym::choice(4) {
        0 => o(&[]),
        1 => o(&[("@graph", a(&[]))]),
        2 => o(&[("@type", a(&[t(C)])), ("@id", t("_:b1")), (Q, a(&[]))]),
        _ => o(&[("@list", a(&[]))]),
    }
}

/// Nodes: their views.
#[no_mangle]
pub extern "C" fn h_views_nodes() {
    let j = any_node(false);
    #[cfg(feature = "replay")]
    println!("node {}", j.print());
    let x = one(&j);
    sym::cover("viewed");
    object_is(&x, &j);
}

fn rename(j: &J, key: &str) -> J {
    match j {
        J::Arr(x) => J::Arr(x.iter().map(|x| rename(x, key)).collect()),
        J::Obj(x) => J::Obj(x.iter().map(|(k, v)| (name(k), if k == "@value" || k == "@index" { v.clone() } else { rename(v, k) })).collect()),
        J::Str(s) if key == "@id" || key == "@type" => J::Str(name(s)),
        x => x.clone(),
    }
}
fn name(k: &str) -> String {
    match k {
        "_:b0" => "http://e.x/renamed".to_string(),
        "_:b1" => "_:c".to_string(),
        A => "_:a".to_string(),
        k => k.to_string(),
    }
}

/// Documents of up to two objects: sizes, main node, blank nodes, renaming.
#[no_mangle]
pub extern "C" fn h_views_documents() {
    let mut items = vec![any_node(true)];
    match sym::choice(5) {
        0 => (),
        1 => items.push(o(&[("@id", t("http://e.x/b"))])),
        2 => items.push(o(&[("@value", t("v")), ("@type", t(C))])),
        3 => items.push(o(&[("@list", a(&[o(&[("_:b2", a(&[]))])]))])),
        _ => items.insert(0, o(&[("@value", t("v"))])),
    }
    let j = a(&items);
    #[cfg(feature = "replay")]
    println!("document {}", j.print());
    let d = match read(&j) {
        Some(d) => d,
        None => sym::fail("does not read"),
    };
    sym::cover("viewed");
    ck(d.len() == items.len() && !d.is_empty() && d.objects().len() == d.len() && d.iter().count() == d.len(), "length of a document");
    ck(Doc::new().is_empty() && Doc::default().len() == 0, "the empty document");
    let nodes: Vec<&J> = items.iter().filter(|x| !x.has("@value") && !x.has("@list")).collect();
    ck(d.main_node().is_some() == (nodes.len() == 1), "main node");
    if let Some(n) = d.main_node() {
        node_is(n, nodes[0])
    }
    match d.clone().into_main_node() {
        Some(n) => ck(Some(&n) == d.main_node(), "main node"),
        None => ck(d.main_node().is_none(), "main node"),
    }
    let mut want = vec![];
    blanks(&j, "", &mut want);
    let got = d.blank_ids();
    ck(got.len() == want.len() && want.iter().all(|b| got.iter().any(|x| x.as_str() == b)), "blank nodes of a document");
    ck(d.count(|_| true) == d.traverse().count() && d.count(|_| false) == 0, "count of fragments");
    ck(d.clone().into_iter().zip(d.iter()).all(|(x, y)| x == *y), "iteration");
    let mut e: Doc = d.clone().into_iter().collect();
    ck(e == d, "a document collected");
    ck(e.insert(d.iter().next().unwrap().clone()) == false && e == d, "insertion of what is there");
    ck(e.insert(one(&o(&[("@id", t("http://e.x/new"))]))) && e.len() == d.len() + 1 && e != d, "insertion of a new node");
    let r = d.map_ids(
        |i| match I::from_string(name(i.as_str())) {
            Id::Valid(rdf_types::Id::Iri(i)) => i,
            _ => i,
        },
        |i| I::from_string(name(i.as_str())),
    );
    let (r, want) = (glue::to_j(r), rename(&j, ""));
    #[cfg(feature = "replay")]
    println!("renamed {}\nwant    {}", r.print(), want.print());
    ck(ld_eq(&r, &want, false), "renamed document");
}
fn blanks(j: &J, key: &str, out: &mut Vec<String>) {
    let mut add = |x: &str| {
        if is_blank(x) && !out.iter().any(|y| y == x) {
            out.push(x.to_string())
        }
    };
    match j {
        J::Str(s) if key == "@id" || key == "@type" => add(s),
        J::Arr(x) => x.iter().for_each(|x| blanks(x, key, out)),
        J::Obj(x) => {
            for (k, v) in x {
                if is_blank(k) && !out.contains(k) {
                    out.push(k.clone())
                }
                if k != "@value" && k != "@index" {
                    blanks(v, k, out)
                }
            }
        }
        _ => (),
    }
}

// Quads.

type Q4 = (String, String, String, String);
fn dig(graph: &str, j: &J, out: &mut Vec<Q4>) {
    if let Some(l) = j.get("@list") {
        arr(l).iter().for_each(|x| dig(graph, x, out))
    }
    let id = match j.get("@id").and_then(J::str) {
        Some(x) => x,
        None => return,
    };
    for (k, v) in j.obj().unwrap() {
        match k.as_str() {
            "@id" | "@index" => (),
            "@type" => strs(Some(v)).iter().for_each(|x| out.push((graph.into(), id.into(), "@type".into(), x.to_string()))),
            "@graph" => arr(v).iter().for_each(|x| dig(id, x, out)),
            "@included" => arr(v).iter().for_each(|x| dig(graph, x, out)),
            "@reverse" => {
                for (p, ns) in v.obj().unwrap() {
                    for n in arr(ns) {
                        if let Some(s) = n.get("@id").and_then(J::str) {
                            out.push((graph.into(), s.into(), p.clone(), canon(j).print()))
                        }
                        dig(graph, n, out)
                    }
                }
            }
            p => {
                for x in arr(v) {
                    let mut y = x.clone();
                    y.remove("@index");
                    out.push((graph.into(), id.into(), p.to_string(), canon(&y).print()));
                    dig(graph, x, out)
                }
            }
        }
    }
}
fn quads_of(q: json_ld::quad::Quads<IriBuf, BlankIdBuf>) -> Vec<Q4> {
    q.map(|q| {
        (
            q.0.map_or(String::new(), |x| x.to_string()),
            q.1.to_string(),
            match q.2 {
                PropertyRef::Type => "@type".to_string(),
                PropertyRef::Ref(x) => x.to_string(),
            },
            match q.3 {
                ObjectRef::Object(x) => print_norm(x.clone()),
                ObjectRef::Node(x) => print_norm(x.clone()),
                ObjectRef::Ref(x) => x.to_string(),
            },
        )
    })
    .collect()
}
fn same(mut x: Vec<Q4>, mut y: Vec<Q4>) -> bool {
    x.sort();
    y.sort();
    #[cfg(feature = "replay")]
    if x != y {
        println!("got  {x:?}\nwant {y:?}")
    }
    x == y
}

/// The quads of documents whose nodes have identifiers; of their node map.
#[no_mangle]
pub extern "C" fn h_views_quads() {
    let id = |i: &str, es: &[(&str, J)]| {
        let mut x = o(&[("@id", t(i))]);
        es.iter().for_each(|(k, v)| x.set(k, v.clone()));
        x
    };
    let v = o(&[("@value", t("v"))]);
    let leaf = |i: &str| match sym::choice(3) {
        0 => id(i, &[]),
        1 => id(i, &[("@type", a(&[t(C)]))]),
        _ => id(i, &[(Q, a(&[v.clone()]))]),
    };
    let mut x = id(A, &[]);
    for which in [sym::choice(7), sym::choice(7)] {
        match which {
            0 => (),
            1 => x.set("@type", a(&[t(C), t("_:t")])),
            2 => x.set(P, a(&[leaf("_:b0"), v.clone()])),
            3 => x.set(Q, a(&[o(&[("@list", a(&[leaf("_:b1"), v.clone()]))])])),
            4 => x.set("@reverse", o(&[(P, a(&[leaf("_:b2")]))])),
            5 => x.set("@included", a(&[leaf("_:b3")])),
            _ => x.set("@graph", a(&[leaf("_:b4"), id("_:b5", &[("@graph", a(&[leaf(A)]))])])),
        }
    }
    let j = match sym::choice(3) {
        0 => a(&[x]),
        1 => a(&[id("_:r", &[(P, a(&[x]))])]),
        _ => a(&[x, id("_:b0", &[(P, a(&[id(A, &[])]))])]),
    };
    #[cfg(feature = "replay")]
    println!("document {}", j.print());
    let d = match read(&j) {
        Some(d) => d,
        None => sym::fail("does not read"),
    };
    sym::cover("viewed");
    let mut want = vec![];
    arr(&j).iter().for_each(|x| dig("", x, &mut want));
    ck(same(quads_of(d.quads()), want), "quads of a document");
    // The node map, all of its graphs, and the flattened document.
    let mut gen = rdf_types::generator::Blank::new_with_prefix("g".to_string());
    let map = match d.generate_node_map_with(&mut (), &mut gen) {
        Ok(x) => x,
        Err(_) => sym::fail("no node map"),
    };
    let mut want = vec![];
    let mut graphs = 0;
    for (g, nodes) in &map {
        graphs += 1;
        ck(map.graph(g).is_some_and(|x| x.nodes().len() == nodes.nodes().len()), "graph of a node map");
        for (i, n) in nodes {
            ck(nodes.contains(i) && nodes.get(i) == Some(n) && n.id.as_ref() == Some(i), "node of a node map");
            dig(&g.map_or(String::new(), |x| x.to_string()), &print(n.clone()), &mut want)
        }
    }
    ck(graphs == 1 + map.iter_named().count(), "graphs of a node map");
    ck(same(quads_of(map.quads()), want.clone()), "quads of a node map");
    let again = d.generate_node_map_with(&mut (), &mut rdf_types::generator::Blank::new_with_prefix("g".to_string())).ok().unwrap();
    let (def, named) = again.into_parts();
    ck(def.nodes().len() + named.values().map(|x| x.nodes().len()).sum::<usize>() == map.iter().map(|(_, x)| x.nodes().len()).sum(), "parts of a node map");
    let merged = map.merge();
    let mut got = vec![];
    for (_, n) in merged {
        let j = print(n.clone());
        dig("", &j, &mut got)
    }
    let mut all: Vec<Q4> = want.into_iter().map(|mut x| { x.0 = String::new(); x }).collect();
    for x in [&mut got, &mut all] {
        x.sort();
        x.dedup()
    }
    ck(same(got, all), "graphs of a node map merged");
}

fn ch(n: usize) -> usize {
    sym::conc(sym::choice(n))
}
/// Sequences of changes to the properties of a node.
#[no_mangle]
pub extern "C" fn h_views_changes() {
    let ids = [P, "_:b0"];
    let pool = [o(&[("@value", t("v"))]), o(&[("@id", t(A))]), o(&[("@id", t(A)), ("@type", a(&[t(C)]))]), o(&[])];
    let obj: Vec<Obj> = pool.iter().map(one).collect();
    let nod: Vec<Nod> = obj.iter().map(|x| x.clone().into_indexed_node().unwrap_or(Indexed::none(Node::new()))).collect();
    let reverse = ch(2) == 1;
    let mut p: Properties<IriBuf, BlankIdBuf> = Properties::new();
    let mut r: ReverseProperties<IriBuf, BlankIdBuf> = ReverseProperties::new();
    let mut model: Vec<(usize, Vec<usize>)> = vec![];
    // What cannot be told apart: equal values, equal named nodes.
    let low = if reverse { 1 } else { 0 };
    let same = |x: usize, y: usize| x == y && x != 3;
    for step in 0..3 {
        let k = if step == 0 { 0 } else { ch(2) };
        let id = || I::from_string(ids[k].to_string());
        let x = low + ch(4 - low);
        let y = if x == 2 { 1 } else { 2 };
        let at = model.iter().position(|m| m.0 == k);
        match if step == 0 { 0 } else { ch(6) } {
            0 => {
                if reverse { r.insert(id(), nod[x].clone()) } else { p.insert(id(), obj[x].clone()) }
                match at {
                    Some(i) => model[i].1.push(x),
                    None => model.push((k, vec![x])),
                }
            }
            1 => {
                if reverse { r.insert_unique(id(), nod[x].clone()) } else { p.insert_unique(id(), obj[x].clone()) }
                match at {
                    Some(i) if model[i].1.iter().any(|z| same(*z, x)) => (),
                    Some(i) => model[i].1.push(x),
                    None => model.push((k, vec![x])),
                }
            }
            2 => {
                if reverse { r.insert_all(id(), [nod[x].clone(), nod[y].clone()]) } else { p.insert_all(id(), [obj[x].clone(), obj[y].clone()]) }
                match at {
                    Some(i) => model[i].1.extend([x, y]),
                    None => model.push((k, vec![x, y])),
                }
            }
            3 => {
                let u = [x, [x, y][ch(2)]];
                if reverse { r.insert_all_unique(id(), u.map(|x| nod[x].clone())) } else { p.insert_all_unique(id(), u.map(|x| obj[x].clone())) }
                let i = at.unwrap_or_else(|| {
                    model.push((k, vec![]));
                    model.len() - 1
                });
                for x in u {
                    if !model[i].1.iter().any(|z| same(*z, x)) {
                        model[i].1.push(x)
                    }
                }
            }
            4 => {
                sym::assume(x == low);
                let n = if reverse { r.remove(&id()).map(|x| x.len()) } else { p.remove(&id()).map(|x| x.len()) };
                ck(n == at.map(|i| model[i].1.len()), "what is removed");
                if let Some(i) = at {
                    model.remove(i);
                }
            }
            _ => {
                if reverse { r.set(id(), [nod[x].clone(), nod[y].clone()].into_iter().collect()) } else { p.set(id(), [obj[x].clone(), obj[y].clone()].into_iter().collect()) }
                match at {
                    Some(i) => model[i].1 = vec![x, y],
                    None => model.push((k, vec![x, y])),
                }
            }
        }
    }
    sym::cover("changed");
    ck(if reverse { r.len() } else { p.len() } == model.len(), "number of properties");
    ck(if reverse { r.is_empty() } else { p.is_empty() } == model.is_empty(), "emptiness");
    for (k, id) in ids.iter().enumerate() {
        let id = I::from_string(id.to_string());
        let want: Option<Vec<J>> = model.iter().find(|m| m.0 == k).map(|m| m.1.iter().map(|x| pool[*x].clone()).collect());
        ck(if reverse { r.contains(&id) } else { p.contains(&id) } == want.is_some(), "contains");
        let want = want.unwrap_or_default();
        ck(if reverse { r.get_any(&id).is_some() } else { p.get_any(&id).is_some() } != want.is_empty(), "get_any");
        if reverse {
            nodes_are(r.get(&id), &want)
        } else {
            list_is(p.get(&id), &want)
        }
    }
    let seen: usize = if reverse { r.iter().map(|x| x.1.len()).sum() } else { p.iter().map(|x| x.1.len()).sum() };
    ck(seen == model.iter().map(|x| x.1.len()).sum(), "number of objects");
}
