//! Equality, hashing, traversal and relabelling of expanded documents.
use crate::b::*;
use crate::glue::{self, Doc, Docs};
use crate::p_doc::read;
use crate::refimpl::ctx::is_blank;
use crate::refimpl::flatten::{iso_eq, rename};
use crate::refimpl::json::*;
use crate::refimpl::rdf::NUMBERS;
use crate::sym;
use json_ld::object::{FragmentRef, MappedEq};
use json_ld::{Id, JsonLdProcessor};
use rdf_types::BlankIdBuf;
use std::hash::{Hash, Hasher};

const P: &str = "http://e.x/p";
const Q: &str = "http://e.x/q";

fn v(x: &str) -> J {
    o(&[("@value", t(x))])
}
fn r(x: &str) -> J {
    o(&[("@id", t(x))])
}
const BODIES: usize = 40;
fn body(node: &mut J, i: usize) {
    let list = |x: &[J]| o(&[("@list", a(x))]);
    let val = |es: &[(&str, J)]| o(es);
    let (k, x) = match i {
        0 => return,
        1 => (P, a(&[v("v")])),
        2 => (P, a(&[v("w")])),
        3 => (P, a(&[v("v"), v("w")])),
        4 => (P, a(&[v("w"), v("v")])),
        5 => (P, a(&[v("v"), v("v")])),
        6 => (P, a(&[v("v"), v("v"), v("w")])),
        7 => (P, a(&[v("v"), v("w"), v("w")])),
        8 => (P, a(&[list(&[v("v"), v("w")])])),
        9 => (P, a(&[list(&[v("w"), v("v")])])),
        10 => (P, a(&[list(&[])])),
        11 => (P, a(&[])),
        12 => (Q, a(&[v("v")])),
        13 => ("_:b0", a(&[v("v")])),
        14 => ("_:b1", a(&[v("v")])),
        15 => (P, a(&[r("_:b0")])),
        16 => (P, a(&[r("_:b1")])),
        17 => (P, a(&[r("http://e.x/a"), o(&[(Q, a(&[v("v"), v("w")])), ("@type", a(&[t("http://e.x/T")]))])])),
        18 => (P, a(&[o(&[(Q, a(&[v("w"), v("v")])), ("@type", a(&[t("http://e.x/T")]))]), r("http://e.x/a")])),
        19 => (P, a(&[val(&[("@value", t("v")), ("@type", t("http://e.x/T"))])])),
        20 => (P, a(&[val(&[("@value", t("v")), ("@language", t("en"))])])),
        21 => (P, a(&[val(&[("@value", t("v")), ("@language", t("en")), ("@direction", t("ltr"))])])),
        22 => (P, a(&[val(&[("@value", t("v")), ("@language", t("en")), ("@direction", t("rtl"))])])),
        23 => (P, a(&[val(&[("@value", t("v")), ("@index", t("i"))])])),
        24 => (P, a(&[val(&[("@value", T)]), val(&[("@value", n("1"))])])),
        25 => (P, a(&[val(&[("@value", n("1"))]), val(&[("@value", T)])])),
        26 => (P, a(&[val(&[("@value", a(&[t("v"), o(&[("a", N), ("b", T)])])), ("@type", t("@json"))])])),
        27 => (P, a(&[val(&[("@value", a(&[o(&[("b", T), ("a", N)]), t("v")])), ("@type", t("@json"))])])),
        28 => (P, a(&[val(&[("@value", a(&[t("v"), o(&[("b", T), ("a", N)])])), ("@type", t("@json"))])])),
        29 => ("@reverse", o(&[(P, a(&[r("http://e.x/a"), r("_:b0")]))])),
        30 => ("@reverse", o(&[(P, a(&[r("_:b0"), r("http://e.x/a")]))])),
        31 => ("@reverse", o(&[(P, a(&[r("_:b1"), r("http://e.x/a")]))])),
        32 => ("@reverse", o(&[("_:b0", a(&[o(&[(P, a(&[v("v")]))])]))])),
        33 => ("@graph", a(&[o(&[(P, a(&[v("v")]))]), r("_:b0")])),
        34 => ("@graph", a(&[r("_:b0"), o(&[(P, a(&[v("v")]))])])),
        35 => ("@graph", a(&[])),
        36 => ("@included", a(&[o(&[(P, a(&[v("v")]))]), o(&[("@index", t("i")), (P, a(&[v("v")]))])])),
        37 => ("@included", a(&[o(&[("@index", t("i")), (P, a(&[v("v")]))]), o(&[(P, a(&[v("v")]))])])),
        38 => ("@included", a(&[o(&[(P, a(&[v("w")]))]), o(&[("@index", t("i")), (P, a(&[v("v")]))])])),
        _ => ("@graph", a(&[o(&[("@graph", a(&[o(&[("_:b0", a(&[r("_:b1")]))])]))])])),
    };
    node.set(k, x)
}
const NUM: [usize; 4] = [4, 6, 2, BODIES];
fn node(c: [usize; 4]) -> J {
    let mut x = o(&[]);
    match c[0] {
        0 => (),
        1 => x.set("@id", t("http://e.x/a")),
        2 => x.set("@id", t("_:b0")),
        _ => x.set("@id", t("_:b1")),
    }
    match c[1] {
        0 => (),
        1 => x.set("@type", a(&[t("http://e.x/T")])),
        2 => x.set("@type", a(&[t("http://e.x/T"), t("http://e.x/U")])),
        3 => x.set("@type", a(&[t("http://e.x/U"), t("http://e.x/T")])),
        4 => x.set("@type", a(&[t("_:b0")])),
        _ => x.set("@type", a(&[t("_:b1")])),
    }
    if c[2] == 1 {
        x.set("@index", t("i"))
    }
    body(&mut x, c[3]);
    x
}
/// One, two or nested nodes.
fn place(x: J, i: usize) -> J {
    match i {
        0 => a(&[x]),
        1 => a(&[o(&[(Q, a(&[x]))])]),
        2 => a(&[o(&[("@included", a(&[r("http://e.x/i"), x]))])]),
        3 => a(&[o(&[("@graph", a(&[x, v("v")]))])]),
        4 => a(&[o(&[(Q, a(&[o(&[("@list", a(&[r("http://e.x/i"), x]))])]))])]),
        _ => a(&[o(&[("@reverse", o(&[(Q, a(&[x]))]))])]),
    }
}

fn eq_ref(x: &J, y: &J) -> bool {
    ld_eq(x, y, false)
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn flip(b: &BlankIdBuf) -> &BlankIdBuf {
    thread_local! {
        static B: [&'static BlankIdBuf; 2] = ["_:b1", "_:b0"].map(|x| &*Box::leak(Box::new(BlankIdBuf::new(x.to_string()).unwrap())));
    }
    B.with(|x| match b.as_str() {
        "_:b0" => x[0],
        "_:b1" => x[1],
        _ => b,
    })
}

/// Two documents that differ in at most one respect.
#[no_mangle]
pub extern "C" fn h_eq() {
    let which = sym::choice(4);
    let (mut c, mut d);
    if which == 3 {
        c = pick(&[[0, 0, 0, 0], [1, 1, 0, 0]]);
        c[3] = sym::choice(BODIES);
        d = c;
        d[3] = sym::choice(BODIES);
        // Nothing is said of JSON literals whose entries are in another order.
        sym::assume(c[3] <= d[3] && (c[3], d[3]) != (26, 28));
    } else {
        c = [sym::choice(NUM[0]), sym::choice(NUM[1]), sym::choice(NUM[2]), pick(&[0, 3, 15, 29])];
        d = c;
        d[which] = sym::choice(NUM[which]);
        sym::assume(c[which] <= d[which]);
    }
    let at = sym::choice(6);
    let (x, y) = (place(node(c), at), place(node(d), at));
    let (dx, dy) = match (read(&x), read(&y)) {
        (Some(x), Some(y)) => (x, y),
        _ => sym::fail("does not read"),
    };
    let want = eq_ref(&x, &y);
    #[cfg(feature = "replay")]
    println!("x    {}\ny    {}\nwant {want} got {}", x.print(), y.print(), dx == dy);
    sym::cover(if want { "equal" } else { "different" });
    sym::check((dx == dy) == want, "equality differs from equality of what is said");
    sym::check((dy == dx) == want, "equality is not symmetric");
    let (ox, oy) = (dx.into_objects(), dy.into_objects());
    for x in &ox {
        for y in &oy {
            if want {
                sym::check(hash(x) == hash(y), "equal objects have different hashes")
            }
            sym::check(x.mapped_eq(y, |b| b) == want, "mapped equality by identity differs from equality");
            sym::check(y.mapped_eq(x, |b| b) == want, "mapped equality by identity differs from equality");
        }
    }
    let m = [("_:b0".to_string(), "_:b1".to_string()), ("_:b1".to_string(), "_:b0".to_string())];
    let want = eq_ref(&rename(&x, &m, false), &y);
    #[cfg(feature = "replay")]
    println!("mapped: want {want}");
    for x in &ox {
        for y in &oy {
            sym::check(x.mapped_eq(y, flip) == want, "mapped equality differs from equality up to the mapping")
        }
    }
}

// What a traversal meets.

#[derive(Default)]
struct Met {
    nodes: usize,
    values: usize,
    lists: usize,
    index: usize,
    ids: Vec<String>,
}
fn meet(j: &J, m: &mut Met) {
    if let J::Arr(a) = j {
        a.iter().for_each(|x| meet(x, m));
        return;
    }
    if j.has("@index") {
        m.index += 1
    }
    if j.has("@value") {
        m.values += 1;
        match j.get("@type").and_then(J::str) {
            None | Some("@json") => (),
            Some(t) => m.ids.push(t.to_string()),
        }
        return;
    }
    if let Some(l) = j.get("@list") {
        m.lists += 1;
        return meet(l, m);
    }
    m.nodes += 1;
    for (k, x) in j.obj().unwrap() {
        match k.as_str() {
            "@id" => m.ids.push(x.str().unwrap().to_string()),
            "@type" => x.as_items().iter().for_each(|x| m.ids.push(x.str().unwrap().to_string())),
            "@index" => (),
            "@reverse" => {
                for (k, x) in x.obj().unwrap() {
                    m.ids.push(k.to_string());
                    meet(x, m)
                }
            }
            "@graph" | "@included" => meet(x, m),
            _ => {
                m.ids.push(k.to_string());
                meet(x, m)
            }
        }
    }
}
fn traversed(d: &Doc) -> Met {
    let mut m = Met::default();
    for f in d.traverse() {
        match &f {
            FragmentRef::Object(_) | FragmentRef::IndexedObject(_) | FragmentRef::Node(_) | FragmentRef::IndexedNode(_) => {
                match f.into_ref() {
                    Some(json_ld::object::Ref::Node(_)) => m.nodes += 1,
                    Some(json_ld::object::Ref::Value(_)) => m.values += 1,
                    Some(json_ld::object::Ref::List(_)) => m.lists += 1,
                    None => (),
                }
            }
            FragmentRef::IndexValue(_) => m.index += 1,
            f => match f.as_id() {
                Some(Id::Valid(json_ld::ValidId::Iri(i))) => m.ids.push(i.as_str().to_string()),
                Some(Id::Valid(json_ld::ValidId::Blank(i))) => m.ids.push(i.as_str().to_string()),
                Some(Id::Invalid(i)) => m.ids.push(i),
                None => (),
            },
        }
    }
    m
}

/// Gives every anonymous node a label.
fn identify(j: &J, n: &mut usize) -> J {
    match j {
        J::Arr(a) => J::Arr(a.iter().map(|x| identify(x, n)).collect()),
        J::Obj(_) if j.has("@value") => j.clone(),
        J::Obj(x) => {
            let mut r = J::Obj(vec![]);
            for (k, x) in x {
                let y = match k.as_str() {
                    "@id" | "@type" | "@index" => x.clone(),
                    "@reverse" => J::Obj(x.obj().unwrap().iter().map(|(k, x)| (k.clone(), identify(x, n))).collect()),
                    _ => identify(x, n),
                };
                r.set(k, y)
            }
            if !r.has("@list") && !r.has("@id") {
                *n += 1;
                r.set("@id", J::Str(["_:anonymous-", &"x".repeat(*n)].concat()))
            }
            r
        }
        x => x.clone(),
    }
}

/// Traversal, relabelling, identification and canonicalization.
#[no_mangle]
pub extern "C" fn h_walk() {
    let c = NUM.map(sym::choice);
    let at = sym::choice(7);
    sym::assume(c[2] == 0 || at < 4);
    let x = match at {
        6 => a(&[node([2, 4, 0, 15]), node(c)]),
        at => place(node(c), at),
    };
    let d = match read(&x) {
        Some(d) => d,
        _ => sym::fail("does not read"),
    };
    let mut want = Met::default();
    // The document is a set.
    let mut shown = x.clone();
    dedup(&mut shown);
    meet(&shown, &mut want);
    let mut got = traversed(&d);
    sort_strings(&mut want.ids);
    sort_strings(&mut got.ids);
    #[cfg(feature = "replay")]
    println!(
        "x    {}\nwant {} {} {} {} {:?}\ngot  {} {} {} {} {:?}",
        x.print(), want.nodes, want.values, want.lists, want.index, want.ids, got.nodes, got.values, got.lists, got.index, got.ids
    );
    sym::cover("walked");
    sym::check(want.nodes == got.nodes, "a traversal does not meet every node once");
    sym::check(want.values == got.values, "a traversal does not meet every value once");
    sym::check(want.lists == got.lists, "a traversal does not meet every list once");
    sym::check(want.index == got.index, "a traversal does not meet every index once");
    sym::check(want.ids == got.ids, "a traversal does not meet every identifier once");
    let blank = d.blank_ids();
    sym::check(
        blank.iter().all(|b| want.ids.iter().any(|i| i == b.as_str()))
            && want.ids.iter().all(|i| !is_blank(i) || blank.iter().any(|b| i == b.as_str())),
        "blank_ids is not the set of blank node identifiers",
    );
    let tops = shown.arr().unwrap().iter().filter(|x| !x.has("@value") && !x.has("@list")).count();
    sym::check(d.main_node().is_some() == (tops == 1), "main_node is not the only node of the top level");

    let all = identify(&shown, &mut 0);
    let mut e = d.clone();
    e.identify_all(&mut rdf_types::generator::Blank::new_with_prefix("gen-".to_string()));
    let e = glue::to_j(e);
    #[cfg(feature = "replay")]
    println!("identified {}\nwant {}", e.print(), all.print());
    sym::check(iso_eq(&all, &e), "identify_all does more or less than naming anonymous nodes");
    sym::check(kept(&shown, &e), "identify_all changes an identifier");
    // The labels of the document do not collide with fresh ones by luck only.
    let mut e = d.clone();
    match sym::choice(2) {
        0 => e.relabel(&mut rdf_types::generator::Blank::new_with_prefix("b".to_string())),
        _ => e.relabel_and_canonicalize(&mut rdf_types::generator::Blank::new_with_prefix("b".to_string())),
    }
    let e = glue::to_j(e);
    #[cfg(feature = "replay")]
    println!("relabelled {}", e.print());
    sym::check(iso_eq(&all, &e), "relabelling is not a renaming of blank nodes")
}
/// Does every blank node identifier of the first document occur in the second?
fn kept(x: &J, y: &J) -> bool {
    let (mut a, mut b) = (Met::default(), Met::default());
    meet(x, &mut a);
    meet(y, &mut b);
    a.ids.iter().all(|i| b.ids.contains(i))
}

/// Canonical literals.
#[no_mangle]
pub extern "C" fn h_canonical() {
    let k = sym::choice(NUMBERS.len());
    let num = NUMBERS[k];
    let wrap = |j: J, i: usize| match i {
        0 => o(&[("@value", j)]),
        1 => o(&[("@value", j), ("@type", t("http://e.x/T"))]),
        2 => o(&[("@value", j), ("@type", t("@json"))]),
        3 => o(&[("@value", o(&[("b", a(&[j.clone(), t("x")])), ("a", o(&[("d", j), ("c", N)]))])), ("@type", t("@json"))]),
        _ => o(&[("@list", a(&[o(&[("@value", j)])]))]),
    };
    let (i, at) = (sym::choice(5), sym::choice(6));
    let doc = |x: &str| place(o(&[(P, a(&[wrap(n(x), i), v("v")]))]), at);
    let (x, want) = (doc(num.0), doc(num.3));
    let mut d = match read(&x) {
        Some(d) => d,
        _ => sym::fail("does not read"),
    };
    d.canonicalize();
    let got = glue::to_j(d.clone());
    #[cfg(feature = "replay")]
    println!("x    {}\nwant {}\ngot  {}", x.print(), want.print(), got.print());
    sym::cover("canonicalized");
    sym::check(ld_eq(&want, &got, false), "a literal is not in canonical form");
    sym::check(i != 3 || ordered(&got), "the entries of a JSON literal are not sorted");
    let mut e = d.clone();
    e.canonicalize();
    sym::check(e == d, "canonicalization is not idempotent")
}
fn ordered(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().all(ordered),
        J::Obj(x) => x.iter().all(|(k, v)| if k == "@value" { sorted(v) } else { ordered(v) }),
        _ => true,
    }
}
fn sorted(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().all(sorted),
        J::Obj(x) => x.windows(2).all(|w| w[0].0 < w[1].0) && x.iter().all(|e| sorted(&e.1)),
        _ => true,
    }
}

/// Comparison of documents that are not expanded.
#[no_mangle]
pub extern "C" fn h_compare() {
    let leaf = |i: usize| match i {
        0 => t("v"),
        1 => t("w"),
        2 => T,
        3 => n("1"),
        4 => o(&[("@id", t("i"))]),
        5 => o(&[("q", t("v")), ("@id", t("i"))]),
        6 => a(&[t("v"), t("w")]),
        7 => a(&[t("w"), t("v")]),
        8 => a(&[t("v"), t("v"), t("w")]),
        9 => a(&[t("w"), t("v"), t("w")]),
        10 => o(&[("@list", a(&[t("v"), t("w")]))]),
        11 => o(&[("@list", a(&[t("w"), t("v")]))]),
        12 => J::Obj(vec![("q".to_string(), t("v")), ("q".to_string(), t("v"))]),
        13 => o(&[("q", t("v")), ("@type", t("T"))]),
        _ => N,
    };
    let term = pick(&[t("http://e.x/p"), o(&[("@id", t("http://e.x/p")), ("@container", t("@list"))])]);
    let ctx = o(&[("@vocab", t("http://v.x/")), ("p", term)]);
    let doc = |x: J, swap: bool| {
        if swap {
            o(&[("p", x), ("r", t("z")), ("@context", ctx.clone())])
        } else {
            o(&[("@context", ctx.clone()), ("r", t("z")), ("p", x)])
        }
    };
    let (x, y) = (doc(leaf(sym::choice(15)), false), doc(leaf(sym::choice(15)), sym::choice(2) == 1));
    let docs = Docs::default();
    let (rx, ry) = (glue::rdoc(&x, None), glue::rdoc(&y, None));
    let ex = glue::expand(&x, None, &docs, Default::default());
    let ey = glue::expand(&y, None, &docs, Default::default());
    let got = glue::block_on(rx.compare(&ry, &docs));
    let back = glue::block_on(ry.compare(&rx, &docs));
    #[cfg(feature = "replay")]
    println!("x    {}\ny    {}\ngot  {:?} {:?}", x.print(), y.print(), got.as_ref().ok(), back.as_ref().ok());
    let (ex, ey) = match (ex, ey) {
        (Ok(x), Ok(y)) => (x, y),
        _ => {
            sym::cover("not a document");
            return sym::check(!matches!(got, Ok(true)), "equal to a document that does not expand");
        }
    };
    // Equal up to the order of entries and of items, and with the same meaning.
    let want = loose(&x, &y) && eq_ref(&ex, &ey);
    sym::cover(if want { "equal" } else { "different" });
    match (got, back) {
        (Ok(g), Ok(b)) => {
            sym::check(g == want, "comparison differs from comparison of what is said");
            sym::check(b == g, "comparison is not symmetric")
        }
        _ => sym::fail("does not compare"),
    }
}
/// Equality up to the order of all arrays.
fn loose(x: &J, y: &J) -> bool {
    match (x, y) {
        (J::Arr(p), J::Arr(q)) => {
            let mut used = vec![false; q.len()];
            p.len() == q.len()
                && p.iter().all(|x| match (0..q.len()).find(|&i| !used[i] && loose(x, &q[i])) {
                    Some(i) => {
                        used[i] = true;
                        true
                    }
                    None => false,
                })
        }
        (J::Obj(p), J::Obj(q)) => {
            p.len() == q.len() && p.iter().all(|(k, x)| y.get(k).is_some_and(|y| loose(x, y)))
        }
        _ => x == y,
    }
}

