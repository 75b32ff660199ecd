//! Expansion against the reference.
use crate::b::*;
use crate::glue::{self, Docs};
use crate::refimpl::ctx::Env;
use crate::refimpl::grammar;
use crate::refimpl::json::*;
use crate::refimpl::expand as rexp;
use crate::sym;
use json_ld::{Options, ProcessingMode};

pub const BASE: &str = "http://b.x/d/f";

pub fn observe(r: &Result<J, crate::refimpl::ctx::E>) {
    match r {
        Ok(j) => sym::observe(&[0, j.arr().map(|a| a.len()).unwrap_or(255) as u8]),
        Err(e) => {
            sym::observe(&[1]);
            sym::observe(e.as_str().as_bytes())
        }
    }
}

/// Runs both expansions and compares outcome, error code and document.
pub fn diff(doc: &J, docs: &[(String, J)], mode10: bool, codes: bool) {
    diff_in(doc, docs, mode10, codes, false)
}
/// The same; in order if asked for: entries in the order of their keys, and
/// arrays compared with their order.
pub fn diff_in(doc: &J, docs: &[(String, J)], mode10: bool, codes: bool, ordered: bool) {
    let env = Env::new(docs, mode10);
    let want = rexp::expand_document(&env, doc, Some(BASE));
    let d = Docs { docs: docs.to_vec(), ..Docs::default() };
    let mut o = Options::default();
    if mode10 {
        o.processing_mode = ProcessingMode::JsonLd1_0
    }
    o.ordered = ordered;
    let got = glue::expand(doc, Some(BASE), &d, o);
    observe(&got);
    if env.unspecified.get() {
        sym::cover("unspecified");
        return;
    }
    // The syntax of contexts is checked first, with codes of its own.
    let codes = codes && !(want.is_err() && bad_context(doc) || docs.iter().any(|d| bad_context(&d.1)));
    if want.is_ok() && got.is_err() && grammar::some_bad(doc) {
        // The algorithms never look at the ill-formed part.
        sym::cover("ill-formed context");
        return;
    }
    compare(doc, &want, &got, codes);
    if let (true, Ok(w), Ok(g)) = (ordered, &want, &got) {
        let (mut w, mut g) = (w.clone(), g.clone());
        norm(&mut w);
        norm(&mut g);
        dedup(&mut w);
        dedup(&mut g);
        sym::check(exact_eq(&w, &g), "the order differs from the specified one")
    }
}
/// Equality with the order of arrays.
fn exact_eq(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| exact_eq(a, b)),
        (J::Obj(x), J::Obj(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| b.get(k).map_or(false, |w| k == "@value" && json_eq(v, w) || exact_eq(v, w)))
        }
        _ => a == b,
    }
}

/// Is there a local context that the syntax of contexts does not allow?
fn bad_context(d: &J) -> bool {
    match d {
        J::Arr(v) => v.iter().any(bad_context),
        J::Obj(v) => v.iter().any(|(k, v)| {
            if k == "@context" {
                glue::rctx(v, None).is_err()
            } else {
                bad_context(v)
            }
        }),
        _ => false,
    }
}
pub fn compare(
    doc: &J,
    want: &Result<J, crate::refimpl::ctx::E>,
    got: &Result<J, crate::refimpl::ctx::E>,
    codes: bool,
) {
    #[cfg(feature = "replay")]
    {
        println!("doc  {}", doc.print());
        println!("want {}", show(want));
        println!("got  {}", show(got));
    }
    let _ = doc;
    match (want, got) {
        (Ok(w), Ok(g)) => {
            sym::cover("both succeed");
            let (mut w, mut g) = (w.clone(), g.clone());
            norm(&mut w);
            norm(&mut g);
            dedup(&mut w);
            dedup(&mut g);
            sym::check(ld_eq(&w, &g, false), "output differs from the specified one")
        }
        (Err(w), Err(g)) => {
            sym::cover("both reject");
            sym::check(!codes || w == g, "error code differs from the specified one")
        }
        (Ok(_), Err(_)) => sym::fail("rejects what the specification accepts"),
        (Err(_), Ok(_)) => sym::fail("accepts what the specification rejects"),
    }
}
#[cfg(feature = "replay")]
pub fn show(r: &Result<J, crate::refimpl::ctx::E>) -> String {
    match r {
        Ok(j) => j.print(),
        Err(e) => format!("error {}", e.as_str()),
    }
}

/// A definition of `p`: every coercion in every plain container.
pub fn term_def() -> J {
    let mut d = o(&[("@id", t("http://e.x/p"))]);
    match sym::choice(7) {
        0 => return t("http://e.x/p"),
        1 => d.set("@type", t("@id")),
        2 => d.set("@type", t("@vocab")),
        3 => d.set("@type", t("@none")),
        4 => d.set("@type", t("@json")),
        5 => d.set("@type", t("http://e.x/D")),
        _ => {
            match sym::choice(3) {
                0 => (),
                1 => d.set("@language", t("fr")),
                _ => d.set("@language", N),
            }
            match sym::choice(3) {
                0 => (),
                1 => d.set("@direction", t("ltr")),
                _ => d.set("@direction", N),
            }
        }
    }
    match sym::choice(4) {
        0 => (),
        1 => d.set("@container", t("@list")),
        2 => d.set("@container", t("@set")),
        _ => d.set("@container", t("@index")),
    }
    d
}

pub fn values() -> Vec<J> {
    vec![
        t("v"),
        T,
        n("5"),
        N,
        o(&[("@value", t("v"))]),
        o(&[("@value", t("v")), ("@language", t("de"))]),
        o(&[("@value", t("v")), ("@type", t("T"))]),
        o(&[("@value", n("1")), ("@language", t("de"))]),
        o(&[("@value", N)]),
        o(&[("@id", t("i"))]),
        o(&[("@list", a(&[t("v"), N, a(&[n("1")])]))]),
        o(&[("@set", a(&[t("v"), N, T]))]),
        a(&[t("v"), o(&[("q", t("w"))]), a(&[])]),
        o(&[("@value", o(&[("q", N)])), ("@type", t("@json"))]),
        o(&[("@value", t("v")), ("@direction", t("rtl")), ("@index", t("i"))]),
        o(&[("@value", t("v")), ("@type", t("T")), ("@language", t("de"))]),
    ]
}

fn go((doc, codes): (J, bool)) {
    diff(&doc, &[], false, codes)
}
/// In either order.
fn go2((doc, codes): (J, bool)) {
    diff_in(&doc, &[], false, codes, sym::choice(2) == 1)
}
#[no_mangle]
pub extern "C" fn h_expand_values() {
    go(g_values())
}
#[no_mangle]
pub extern "C" fn h_expand_maps() {
    go2(g_maps())
}
#[no_mangle]
pub extern "C" fn h_expand_keywords() {
    go(g_keywords())
}
#[no_mangle]
pub extern "C" fn h_expand_twice() {
    go2(g_twice())
}
#[no_mangle]
pub extern "C" fn h_expand_structure() {
    go2(g_structure())
}
/// Value coercion: term definitions x defaults x values.
pub fn g_values() -> (J, bool) {
    let mut ctx = o(&[("@vocab", t("http://v.x/"))]);
    match sym::choice(3) {
        0 => (),
        1 => ctx.set("@language", t("en")),
        _ => {
            ctx.set("@language", t("en"));
            ctx.set("@direction", t("rtl"));
        }
    }
    let d = term_def();
    ctx.set("p", d);
    let v = pick(&values());
    let doc = o(&[("@context", ctx), ("p", v)]);
    (doc, true)
}

/// Containers x map shapes.
pub fn containers() -> Vec<J> {
    vec![
        t("@list"),
        t("@set"),
        t("@index"),
        t("@language"),
        t("@id"),
        t("@type"),
        t("@graph"),
        a(&[t("@graph"), t("@id")]),
        a(&[t("@graph"), t("@index")]),
        a(&[t("@graph"), t("@set")]),
        a(&[t("@graph"), t("@id"), t("@set")]),
        a(&[t("@graph"), t("@index"), t("@set")]),
        a(&[t("@index"), t("@set")]),
        a(&[t("@id"), t("@set")]),
        a(&[t("@type"), t("@set")]),
        a(&[t("@language"), t("@set")]),
    ]
}
pub fn map_values() -> Vec<J> {
    vec![
        t("v"),
        o(&[("en", t("v")), ("@none", a(&[t("x"), N]))]),
        o(&[("none", t("i")), ("k", a(&[t("j"), o(&[("@value", n("1"))])]))]),
        o(&[("k", o(&[("q", t("w"))])), ("l", o(&[("@id", t("i")), ("@index", t("z"))]))]),
        o(&[("k", o(&[("@type", t("U")), ("q", T)])), ("@none", o(&[("q", T)]))]),
        o(&[("k", a(&[o(&[("@graph", a(&[o(&[("q", t("w"))])]))]), o(&[("@id", t("i")), ("@graph", a(&[]))])]))]),
        o(&[("k", o(&[("@list", a(&[t("x")]))]))]),
        o(&[("k", N), ("l", a(&[N]))]),
        o(&[("k", T)]),
        a(&[o(&[("k", t("v"))]), t("w")]),
        o(&[("@value", t("v"))]),
        o(&[]),
        o(&[("k", o(&[("@set", a(&[t("x"), t("y")]))]))]),
        N,
    ]
}
pub fn g_maps() -> (J, bool) {
    let mut d = o(&[("@id", t("http://e.x/p")), ("@container", pick(&containers()))]);
    match sym::choice(5) {
        0 => (),
        1 => d.set("@type", t("@id")),
        2 => d.set("@type", t("@vocab")),
        3 => d.set("@index", t("ix")),
        _ => match sym::choice(4) {
            0 => {
                d.set("@language", t("fr"));
                d.set("@direction", t("rtl"))
            }
            1 => d.set("@language", N),
            2 => d.set("@direction", N),
            // The scoped context changes how values are expanded.
            _ => d.set("@context", o(&[("@vocab", t("http://s.x/")), ("@direction", t("ltr")), ("q", o(&[("@type", t("@id"))]))])),
        },
    }
    let mut ctx = o(&[
        ("@vocab", t("http://v.x/")),
        ("none", t("@none")),
        ("ix", pick(&[t("http://e.x/ix"), o(&[("@id", t("http://e.x/ix")), ("@type", t("@id"))])])),
        ("p", d),
    ]);
    match sym::choice(3) {
        0 => (),
        1 => ctx.set("@direction", t("rtl")),
        _ => ctx.set("@language", t("en")),
    }
    let doc = o(&[("@context", ctx), ("p", pick(&map_values()))]);
    (doc, true)
}

/// Every keyword, directly or by alias, with every shape of value, beside
/// another entry.
pub fn shapes() -> Vec<J> {
    vec![
        N,
        T,
        n("1"),
        t("x"),
        t("@id"),
        t("rtl"),
        a(&[]),
        a(&[t("x"), N]),
        a(&[t("x"), t("y")]),
        o(&[]),
        o(&[("q", t("x"))]),
        o(&[("@id", t("x"))]),
        o(&[("@value", t("x"))]),
        o(&[("@list", a(&[t("x")]))]),
        a(&[o(&[("q", t("x"))]), o(&[("@id", t("x")), ("q", T)])]),
        o(&[("q", o(&[("q", t("x"))])), ("r", a(&[o(&[("@id", t("y"))])]))]),
    ]
}
pub const KW: [&str; 24] = [
    "@id", "@type", "@graph", "@included", "@value", "@language", "@direction", "@index", "@list", "@set", "@reverse",
    "@nest", "@json", "@none", "@vocab", "@base", "@container", "@default", "@foo", "@prefix", "alias", "_:b", "a/b",
    "@context",
];
pub fn g_keywords() -> (J, bool) {
    let k = KW[sym::choice(KW.len() - 1)];
    let v = pick(&shapes());
    let mut ctx = o(&[("@vocab", t("http://v.x/"))]);
    if k == "alias" {
        ctx.set("alias", t(["@id", "@type", "@graph", "@value", "@index", "@reverse", "@nest", "@included"][sym::choice(8)]));
        ctx.set("r", o(&[("@reverse", t("http://v.x/rr"))]));
    }
    let mut inner = o(&[(k, v)]);
    let extra = sym::choice(5);
    match extra {
        0 => (),
        1 => inner.set("q", t("z")),
        2 => inner.set("@id", t("i")),
        3 => inner.set("@value", t("z")),
        _ => inner.set("@type", t("@json")),
    }
    // As the top node, or below a property.
    let doc = if sym::choice(2) == 0 {
        let mut d = inner;
        d.set("@context", ctx);
        d
    } else {
        o(&[("@context", ctx), ("p", inner)])
    };
    (doc, extra == 0 || extra == 1 && k != "@value" && k != "alias")
}

/// Two entries that expand to the same key.
pub fn g_twice() -> (J, bool) {
    let k = pick(&["@id", "@type", "@graph", "@included", "@value", "@language", "@index", "@list", "@set", "@reverse", "@nest", "http://v.x/q"]);
    let ctx = o(&[
        ("@vocab", t("http://v.x/")),
        ("a", t(k)),
        ("z", t(k)),
        ("r", o(&[("@reverse", t("http://v.x/rr"))])),
    ]);
    let v = |i: usize| match i {
        0 => t("x"),
        1 => a(&[t("y"), t("x")]),
        2 => o(&[("@id", t("i")), ("p", t("x"))]),
        3 => a(&[o(&[("@id", t("j")), ("p", t("x"))]), o(&[("p", t("y"))])]),
        4 => o(&[("p", o(&[("@id", t("k"))])), ("r", o(&[("@id", t("l"))]))]),
        _ => a(&[]),
    };
    let mut n = o(&[("a", v(sym::choice(6)))]);
    let second = pick(&[k, "z"]);
    n.set(second, v(sym::choice(6)));
    match sym::choice(3) {
        0 => (),
        1 => n.set("p", t("w")),
        _ => n.set("@value", t("w")),
    }
    let doc = if sym::choice(2) == 0 {
        n.set("@context", ctx);
        n
    } else {
        o(&[("@context", ctx), ("p", n)])
    };
    // Which of several errors is reported depends on the order of entries.
    (doc, false)
}

/// Value objects with two entries more, before or after `@value`, any of them
/// possibly an alias or given twice.
pub fn g_objects() -> (J, bool) {
    let entry = |i: usize| -> (&'static str, J) {
        match i {
            0 => ("@type", t("http://e.x/T")),
            1 => ("@type", t("@json")),
            2 => ("ty", pick(&[N, n("1"), t("@json"), t("rel"), a(&[t("http://e.x/T")])])),
            3 => ("@language", t("en")),
            4 => ("la", pick(&[t("fr"), N, n("1"), a(&[])])),
            5 => ("@direction", t("rtl")),
            6 => ("di", pick(&[t("ltr"), t("up"), T])),
            7 => ("@index", t("i")),
            8 => ("ix", pick(&[t("j"), N, n("1")])),
            9 => ("@id", t("i")),
            10 => ("q", pick(&[t("v"), N])),
            11 => ("nope", T),
            12 => ("@context", o(&[("@language", t("de"))])),
            13 => ("va", pick(&[t("w"), N])),
            _ => ("", N),
        }
    };
    let ctx = o(&[
        ("ty", t("@type")),
        ("la", t("@language")),
        ("di", t("@direction")),
        ("ix", t("@index")),
        ("va", t("@value")),
        ("q", t("http://e.x/q")),
        ("p", t("http://e.x/p")),
    ]);
    let mut x = o(&[]);
    let at = sym::choice(3);
    let v = pick(&[t("v"), n("1"), N, o(&[("q", T)]), a(&[t("v")])]);
    for i in 0..3 {
        if i == at {
            x.set("@value", v.clone());
        } else {
            let (k, e) = entry(sym::choice(15));
            if !k.is_empty() && !x.has(k) {
                x.set(k, e)
            }
        }
    }
    let k = x.obj().unwrap().len();
    (o(&[("@context", ctx), ("p", x)]), k < 3 && v.is_scalar())
}
#[no_mangle]
pub extern "C" fn h_expand_objects() {
    go(g_objects())
}

/// What stands at the top, alone or in arrays and sets.
pub fn g_top() -> (J, bool) {
    let item = |i: usize| match i {
        0 => t("v"),
        1 => o(&[("@value", t("v"))]),
        2 => o(&[("@list", a(&[o(&[("q", t("v"))])]))]),
        3 => o(&[("@id", t("i"))]),
        4 => o(&[("q", t("v"))]),
        5 => o(&[("@graph", a(&[o(&[("q", t("v"))])]))]),
        6 => o(&[("@graph", a(&[o(&[("@graph", o(&[("q", t("v"))]))])]))]),
        7 => o(&[("@graph", a(&[])), ("@id", t("g"))]),
        8 => o(&[("@graph", a(&[t("v"), o(&[("@id", t("i"))]), o(&[("@list", a(&[t("v")]))]), a(&[o(&[("q", T)]), N])]))]),
        9 => o(&[("@graph", o(&[("q", t("v"))])), ("@index", t("i"))]),
        10 => o(&[("@graph", o(&[("q", t("v"))])), ("unknown/", t("i"))]),
        11 => o(&[("@set", a(&[o(&[("q", t("v"))]), t("v")]))]),
        12 => o(&[("@set", o(&[("@graph", o(&[("q", t("v"))]))]))]),
        13 => o(&[("@type", t("T")), ("@graph", a(&[o(&[("q", t("v"))])]))]),
        14 => o(&[("@included", o(&[("q", t("v"))]))]),
        15 => o(&[]),
        16 => T,
        _ => N,
    };
    let ctx = o(&[("q", t("http://e.x/q")), ("T", t("http://e.x/T"))]);
    let mut x = item(sym::choice(18));
    if let (J::Obj(_), true) = (&x, sym::choice(2) == 1) {
        x.set("@context", ctx.clone())
    }
    let y = item(sym::choice(18));
    let doc = match sym::choice(8) {
        0 => x,
        1 => a(&[x]),
        2 => a(&[x, y]),
        3 => a(&[a(&[x]), a(&[a(&[y])])]),
        4 => o(&[("@context", ctx), ("@graph", a(&[x, y]))]),
        5 => o(&[("@context", ctx), ("@set", a(&[x, y]))]),
        6 => o(&[("@context", ctx), ("@included", a(&[x, y])), ("q", T)]),
        _ => o(&[("@context", ctx), ("@list", a(&[x, y]))]),
    };
    (doc, true)
}
#[no_mangle]
pub extern "C" fn h_expand_top() {
    go(g_top())
}

/// Reverse properties, `@reverse`, `@nest`, `@included`, `@graph` and sets,
/// combined.
pub fn g_structure() -> (J, bool) {
    let mut ctx = o(&[
        ("@vocab", t("http://v.x/")),
        ("r", pick(&[
            o(&[("@reverse", t("http://v.x/rr"))]),
            o(&[("@reverse", t("rr")), ("@container", t("@index"))]),
            o(&[("@reverse", t("rr")), ("@type", t("@id")), ("@container", t("@set"))]),
        ])),
        ("n", t("@nest")),
        ("m", o(&[("@id", t("@nest")), ("@context", o(&[("q", t("http://e.x/nq"))]))])),
        ("d", o(&[("@id", t("http://e.x/d")), ("@nest", t("n"))])),
    ]);
    if sym::choice(2) == 0 {
        ctx.set("q", t("http://e.x/q"))
    }
    let leaf = |i: usize| match i {
        0 => t("v"),
        1 => o(&[("@id", t("i"))]),
        2 => o(&[("@id", t("i")), ("q", t("v"))]),
        3 => o(&[("@list", a(&[t("v")]))]),
        4 => a(&[o(&[("@id", t("i"))]), o(&[("q", t("v"))])]),
        5 => o(&[("r", o(&[("@id", t("k"))]))]),
        6 => o(&[("k", o(&[("@id", t("i"))]))]),
        7 => o(&[("@graph", a(&[o(&[("q", t("v"))])]))]),
        8 => o(&[("@reverse", o(&[("q", o(&[("@id", t("i"))]))]))]),
        9 => o(&[("n", o(&[("q", t("v"))])), ("d", T)]),
        _ => N,
    };
    let l1 = leaf(sym::choice(11));
    let mut node = o(&[]);
    match sym::choice(12) {
        0 => node.set("r", l1),
        1 => node.set("@reverse", o(&[("q", l1)])),
        2 => node.set("@reverse", o(&[("r", l1)])),
        3 => node.set("@nest", o(&[("q", l1)])),
        4 => node.set("m", o(&[("q", l1), ("n", o(&[("d", t("z"))]))])),
        5 => node.set("@included", l1),
        6 => node.set("@graph", l1),
        7 => node.set("n", a(&[o(&[("q", l1)]), o(&[("q", t("y")), ("r", o(&[("@id", t("w"))]))])])),
        8 => node.set("p", a(&[l1, o(&[("@set", a(&[T, N]))])])),
        9 => node.set("n", l1),
        10 => node.set("@reverse", o(&[("@id", l1)])),
        _ => node.set("p", o(&[("@reverse", o(&[("http://e.x/s", l1)])), ("@index", t("x"))])),
    }
    match sym::choice(4) {
        0 => (),
        1 => node.set("@id", t("")),
        2 => node.set("q", t("w")),
        _ => node.set("@reverse", o(&[("http://v.x/rr", o(&[("@id", t("w"))]))])),
    }
    node.set("@context", ctx);
    (node, true)
}

/// Names: a key, an `@id`, a `@type` and a vocabulary-relative value with
/// symbolic bytes, against terms, prefixes, `@vocab` and `@base`.
#[no_mangle]
pub extern "C" fn h_expand_iris() {
    go(g_iris(&["??", "a:?", "?b/", "a:/?"]))
}
#[no_mangle]
pub extern "C" fn h_expand_iris_long() {
    go(g_iris(&["???", "a:??", "?b/?"]))
}
pub fn g_iris(pats: &[&str]) -> (J, bool) {
    let set = b"ab:/_@";
    let name = sy(pats[sym::choice(pats.len())], set);
    let mut ctx = o(&[("a", pick(&[t("http://a.x/"), t("http://a.x/y"), o(&[("@id", t("http://a.x/y")), ("@prefix", T)]), N]))]);
    match sym::choice(4) {
        0 => (),
        1 => ctx.set("@vocab", t("http://v.x/#")),
        2 => ctx.set("@vocab", t("")),
        _ => ctx.set("@vocab", N),
    }
    match sym::choice(3) {
        0 => (),
        1 => ctx.set("@base", t("../g/")),
        _ => ctx.set("@base", N),
    }
    ctx.set("p", o(&[("@id", t("http://e.x/p")), ("@type", t("@vocab"))]));
    let node = match sym::choice(4) {
        0 => o(&[("@context", ctx), (&name, t("v"))]),
        1 => o(&[("@context", ctx), ("@id", t(&name)), ("p", T)]),
        2 => o(&[("@context", ctx), ("@type", t(&name))]),
        _ => o(&[("@context", ctx), ("p", t(&name))]),
    };
    (node, true)
}
