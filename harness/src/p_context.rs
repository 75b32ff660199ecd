//! Context processing against the reference, observed through expansion.
use crate::b::*;
use crate::p_expand::diff;
use crate::refimpl::json::*;
use crate::refimpl::ctx::format2;
use crate::sym;

/// A document that uses every term the contexts below may define.
fn probe(ctx: J, term: &str) -> J {
    let mut d = o(&[("@context", ctx), ("http://z.x/z", t("z"))]);
    if !term.is_empty() {
        d.set(term, t("v"));
    }
    d
}

fn attr(k: usize) -> (&'static str, J) {
    match k {
        0 => ("@id", pick(&[t("http://e.x/i"), t("q"), t("q:x"), t("x"), t("@type"), t("@bar"), t("@context"), t("_:b"), N, T, t("p"), t("http://e.x/i#"), t("q://x"), t("_:"), t("q:"), t(":x")])),
        1 => ("@type", pick(&[t("@id"), t("@vocab"), t("@json"), t("@none"), t("http://e.x/T"), t("q"), t("_:b"), t("@list"), N, n("1"), t("q:x")])),
        2 => (
            "@container",
            pick(&[
                t("@list"), t("@set"), t("@index"), t("@language"), t("@id"), t("@type"), t("@graph"), t("@value"),
                a(&[]), a(&[t("@set"), t("@list")]), a(&[t("@index"), t("@set")]), a(&[t("@graph"), t("@id")]),
                a(&[t("@graph"), t("@id"), t("@index")]), a(&[t("@graph"), t("@language")]), a(&[t("@list")]), N, T,
                a(&[t("@set"), t("@type")]), a(&[t("@graph"), t("@set"), t("@index")]), a(&[t("@id"), t("@language")]),
            ]),
        ),
        3 => ("@language", pick(&[t("en"), N, T, t("EN")])),
        4 => ("@direction", pick(&[t("ltr"), t("rtl"), N, t("up"), n("1")])),
        5 => ("@nest", pick(&[t("@nest"), t("q"), t("@id"), T, N])),
        6 => ("@prefix", pick(&[T, F, t("x"), N])),
        7 => ("@index", pick(&[t("q"), t("@index"), t("http://e.x/ix"), T, t("x")])),
        8 => ("@protected", pick(&[T, F, t("x"), N])),
        9 => (
            "@context",
            pick(&[o(&[("s", t("http://e.x/s"))]), N, a(&[]), T, o(&[("@vocab", n("1"))]), t("nope")]),
        ),
        10 => ("@reverse", pick(&[t("http://e.x/r"), t("q"), t("@bar"), t("@type"), t("_:b"), N, t("q:x"), t("x")])),
        _ => ("@foo", t("x")),
    }
}

/// One term with two attributes, any value for each.
#[no_mangle]
pub extern "C" fn h_ctx_terms() {
    let mut d = o(&[]);
    let i = sym::choice(12);
    let (k, v) = attr(i);
    d.set(k, v);
    let j = sym::choice(3);
    let mut two = false;
    if j > 0 {
        // The second attribute gives the term an IRI, or more.
        let (k2, v2) = if j == 1 { ("@id", t("http://e.x/i")) } else { attr([1, 2, 8, 10][sym::choice(4)]) };
        if k2 != k {
            two = j == 2;
            d.set(k2, v2)
        }
    }
    let mut ctx = o(&[("q", t("http://q.x/")), ("p", d)]);
    if sym::choice(2) == 0 {
        ctx.set("@vocab", t("http://v.x/"))
    }
    let doc = match sym::choice(2) {
        0 => o(&[("@context", ctx), ("p", t("v")), ("p:x", T)]),
        _ => o(&[("@context", ctx), ("p", o(&[("q", t("w"))]))]),
    };
    diff(&doc, &[], false, !two);
}

/// Types with contexts of their own, in any order and in several entries.
#[no_mangle]
pub extern "C" fn h_ctx_types() {
    let types = sym::choice(6);
    // Whether the second entry still holds types once the first has changed
    // the meaning of its key is left open.
    let def = || match sym::choice(if types == 3 || types == 4 { 6 } else { 8 }) {
        0 => o(&[("p", t("http://e.x/1"))]),
        1 => o(&[("p", o(&[("@id", t("http://e.x/2")), ("@language", t("en"))]))]),
        2 => o(&[("p", N), ("@propagate", T)]),
        3 => o(&[("@vocab", t("http://v.x/"))]),
        4 => o(&[("b", N), ("a", t("http://e.x/n"))]),
        5 => o(&[("p", o(&[("@id", t("http://e.x/3")), ("@protected", T)]))]),
        6 => N,
        _ => o(&[("ty", t("http://e.x/t")), ("p", o(&[("@type", t("@vocab")), ("@id", t("http://e.x/4"))]))]),
    };
    let ctx = o(&[
        ("@vocab", t("http://e.x/")),
        ("a", o(&[("@id", t("http://e.x/X")), ("@context", def())])),
        ("b", o(&[("@id", t("http://e.x/Y")), ("@context", def())])),
        ("ty", t("@type")),
    ]);
    let mut d = o(&[("@context", ctx)]);
    match types {
        0 => d.set("@type", a(&[t("a"), t("b")])),
        1 => d.set("@type", a(&[t("b"), t("a")])),
        2 => d.set("ty", a(&[t("b"), t("z"), t("a")])),
        3 => {
            d.set("ty", t("a"));
            d.set("@type", t("b"))
        }
        4 => {
            d.set("@type", t("a"));
            d.set("ty", t("b"))
        }
        _ => {
            d.set("@type", t("b"));
            d.set("p", o(&[("@type", a(&[t("b"), t("a")])), ("p", t("b"))]))
        }
    }
    if !d.has("p") {
        d.set("p", pick(&[t("a"), a(&[o(&[("p", t("b"))]), o(&[("@id", t("a"))])])]))
    }
    diff(&d, &[], false, true);
}

/// The definition of `@type`, over up to three successive contexts.
#[no_mangle]
pub extern "C" fn h_ctx_type() {
    let def = || {
        let mut d = o(&[]);
        match sym::choice(4) {
            0 => (),
            1 => d.set("@protected", T),
            2 => d.set("@protected", F),
            _ => d.set("@protected", t("x")),
        }
        match sym::choice(4) {
            0 => (),
            1 => d.set("@container", t("@set")),
            2 => d.set("@container", t("@list")),
            _ => d.set("@id", t("@type")),
        }
        o(&[("@type", d)])
    };
    let ok = || {
        let mut d = o(&[]);
        match sym::choice(3) {
            0 => (),
            1 => d.set("@protected", T),
            _ => d.set("@protected", F),
        }
        if d.obj().unwrap().is_empty() || sym::choice(2) == 1 {
            d.set("@container", t("@set"))
        }
        let mut c = o(&[("@type", d)]);
        if sym::choice(2) == 1 {
            c.set("@protected", T)
        }
        c
    };
    let ctx = match sym::choice(3) {
        0 => def(),
        1 => a(&[ok(), pick(&[ok(), N])]),
        _ => a(&[ok(), ok(), ok()]),
    };
    diff(&o(&[("@context", ctx), ("@type", t("http://e.x/T"))]), &[], false, true);
}

/// Names of terms, with symbolic bytes.
#[no_mangle]
pub extern "C" fn h_ctx_names() {
    let name = match sym::choice(4) {
        0 => sy("??", b"pq:/@_x"),
        1 => sy("@?a", b"tix"),
        2 => sy("p:?", b"q/:"),
        _ => pick(&["", "@type", "_", "q://x", "b:c/d", "@id", "@vocab", "@context", "http://e.x/p", "a/b", "p:x", "@Foo", "@", "@a1", "_:b"]).to_string(),
    };
    let v = pick(&[
        t("http://e.x/p"), t("p:x"), N, t("@type"), o(&[]), o(&[("@id", t("http://q.x/x"))]), o(&[("@id", t(&name))]),
        o(&[("@id", t("http://q.x/x")), ("@prefix", T)]),
        o(&[("@container", t("@set"))]), o(&[("@container", t("@set")), ("@protected", T)]), T, a(&[]), t(&name), t(""), t("x"),
        J::Str(format2("http://v.x/", &name)),
    ]);
    let mut ctx = o(&[("p", t("http://q.x/"))]);
    ctx.set(&name, v);
    match sym::choice(3) {
        0 => ctx.set("@vocab", t("http://v.x/")),
        1 => ctx.set("@vocab", t("p:v")),
        _ => (),
    }
    let mut d = probe(ctx, &name);
    // As a prefix.
    let used = format2(&name, ":c");
    if !d.has(&used) {
        d.set(&used, T)
    }
    diff(&d, &[], false, true);
}

/// Entries of the local context itself.
#[no_mangle]
pub extern "C" fn h_ctx_entries() {
    let one = |k: usize| -> (&'static str, J) {
        match k {
            0 => ("@base", pick(&[t("http://c.x/y"), t("y/"), N, t(""), T, t("a b"), t("//w.x"), t("_:b"), t("#f")])),
            1 => ("@vocab", pick(&[t("http://v.x/"), t(""), t("v#"), N, n("1"), t("_:b"), t("q"), t("q:v"), t("@type"), t("a b")])),
            2 => ("@language", pick(&[t("en"), N, T, t("a_b"), t("")])),
            3 => ("@direction", pick(&[t("ltr"), t("rtl"), N, t("up"), T])),
            4 => ("@version", pick(&[n("1.1"), n("1.0"), t("1.1"), n("1.10"), T])),
            5 => ("@propagate", pick(&[T, F, t("x"), N])),
            6 => ("@protected", pick(&[T, F, t("x"), N])),
            7 => ("@import", pick(&[t("http://r.x/i"), t("http://r.x/none"), T, N, t("http://r.x/arr"), t("http://r.x/rec"), t("../r")])),
            8 => ("@foo", t("x")),
            _ => ("", N),
        }
    };
    let (k, v) = one(sym::choice(9));
    let mut ctx = o(&[(k, v)]);
    let two = sym::choice(3);
    if two > 0 {
        let (k2, v2) = one([0, 1, 2, 6, 9][sym::choice(5)]);
        if k2 != "" && !ctx.has(k2) {
            ctx.set(k2, v2)
        }
        ctx.set("q", t("http://q.x/"));
    }
    let ctx = if two == 2 { a(&[o(&[("@vocab", t("http://o.x/")), ("@language", t("fr")), ("@direction", t("rtl")), ("@base", t("http://o.x/b/"))]), ctx]) } else { ctx };
    let docs = [
        ("http://r.x/i".to_string(), o(&[("@context", o(&[("@vocab", t("http://i.x/")), ("t", t("u")), ("@language", t("it"))]))])),
        ("http://r.x/arr".to_string(), o(&[("@context", a(&[o(&[("@vocab", t("http://i.x/"))])]))])),
        ("http://r.x/rec".to_string(), o(&[("@context", o(&[("@import", t("http://r.x/i"))]))])),
    ];
    let doc = o(&[
        ("@context", ctx),
        ("@id", t("rel")),
        ("@type", t("u")),
        ("t", a(&[t("s"), T])),
        ("http://e.x/l", o(&[("@id", t("m"))])),
    ]);
    diff(&doc, &docs, false, two == 0);
}

/// Protected terms: what later contexts may do to them.
#[no_mangle]
pub extern "C" fn h_ctx_protected() {
    let first = match sym::choice(4) {
        0 => o(&[("@protected", T), ("p", t("http://e.x/p")), ("s", o(&[("@id", t("http://e.x/s")), ("@protected", F)]))]),
        1 => o(&[("p", o(&[("@id", t("http://e.x/p")), ("@protected", T), ("@type", t("@id"))])), ("s", t("http://e.x/s"))]),
        2 => o(&[("@protected", T), ("p", o(&[("@id", t("http://e.x/p")), ("@context", o(&[("s", t("http://e.x/scoped"))]))]))]),
        _ => o(&[("@protected", T), ("@vocab", t("http://v.x/")), ("p", o(&[("@container", t("@set"))])), ("@type", o(&[("@container", t("@set"))]))]),
    };
    let second = match sym::choice(13) {
        0 => N,
        1 => o(&[("p", t("http://e.x/p"))]),
        2 => o(&[("p", t("http://e.x/other"))]),
        3 => o(&[("p", o(&[("@id", t("http://e.x/p")), ("@type", t("@id"))]))]),
        4 => o(&[("p", o(&[("@id", t("http://e.x/p")), ("@context", o(&[("s", t("http://e.x/scoped"))]))]))]),
        5 => o(&[("p", N)]),
        6 => o(&[("s", t("http://e.x/changed"))]),
        7 => o(&[("@protected", T), ("p", t("http://e.x/p"))]),
        8 => o(&[("p", o(&[("@id", t("http://e.x/p")), ("@protected", F)]))]),
        9 => a(&[N, o(&[("p", t("http://e.x/other"))])]),
        10 => o(&[("@vocab", t("http://v.x/")), ("p", o(&[("@container", t("@set"))]))]),
        11 => o(&[("@type", o(&[("@container", t("@set"))]))]),
        _ => o(&[("@vocab", t("http://w.x/")), ("p", o(&[("@id", t("p")), ("@container", t("@set"))]))]),
    };
    let body = o(&[("p", t("v")), ("s", t("w")), ("http://z.x/z", T)]);
    let doc = match sym::choice(4) {
        // In sequence.
        0 => {
            let mut d = body;
            let mut v = vec![first];
            v.extend(second.into_arr());
            d.set("@context", J::Arr(v));
            d
        }
        // Embedded in a nested node.
        1 => {
            let mut d = body;
            d.set("@context", second);
            o(&[("@context", first), ("http://e.x/k", d)])
        }
        // Scoped to a property.
        2 => {
            let k = o(&[("@id", t("http://e.x/k")), ("@context", second)]);
            let c = a(&[first, o(&[("k", k)])]);
            o(&[("@context", c), ("k", if sym::choice(2) == 0 { body } else { a(&[body]) })])
        }
        // Scoped to a type.
        _ => {
            let k = o(&[("@id", t("http://e.x/K")), ("@context", second)]);
            let mut d = body;
            d.set("@type", t("K"));
            d.set("@context", a(&[first, o(&[("K", k)])]));
            d
        }
    };
    diff(&doc, &[], false, true);
}

/// Scoped contexts: property- and type-scoped, propagating or not, through
/// nested nodes, arrays, maps and `@nest`.
#[no_mangle]
pub extern "C" fn h_ctx_scoped() {
    let prop = |j: &mut J| match sym::choice(3) {
        0 => (),
        1 => j.set("@propagate", F),
        _ => j.set("@propagate", T),
    };
    let mut pc = match sym::choice(4) {
        0 => o(&[("s", t("http://p.x/s"))]),
        1 => o(&[("@vocab", t("http://p.x/")), ("@language", t("fr"))]),
        2 => o(&[("U", o(&[("@id", t("http://p.x/U")), ("@context", o(&[("s", t("http://pu.x/s"))]))]))]),
        _ => N,
    };
    prop(&mut pc);
    let mut tc = match sym::choice(4) {
        0 => o(&[("s", t("http://t.x/s"))]),
        1 => o(&[("@vocab", t("http://t.x/"))]),
        2 => o(&[("k", o(&[("@id", t("http://t.x/k")), ("@context", o(&[("s", t("http://tk.x/s"))]))]))]),
        _ => N,
    };
    prop(&mut tc);
    let wrap = sym::choice(4);
    let mut k = o(&[("@id", t("http://e.x/k")), ("@context", pc)]);
    match wrap {
        1 => k.set("@container", t("@id")),
        2 => k.set("@container", t("@type")),
        3 => k.set("@container", t("@index")),
        _ => (),
    }
    let ctx = o(&[
        ("@vocab", t("http://v.x/")),
        ("s", t("http://e.x/s")),
        ("k", k),
        ("U", o(&[("@id", t("http://e.x/U")), ("@context", tc)])),
        ("V", o(&[("@id", t("http://e.x/V")), ("@context", o(&[("l", t("http://vv.x/l"))]))])),
    ]);
    let leaf = || o(&[("s", t("c")), ("k", t("d")), ("l", T)]);
    let mid = match sym::choice(6) {
        0 => o(&[("s", t("b")), ("l", leaf())]),
        1 => o(&[("@type", t("U")), ("s", t("b")), ("l", leaf())]),
        2 => o(&[("@type", a(&[t("V"), t("U")])), ("s", t("b")), ("k", leaf())]),
        3 => o(&[("@id", t("x"))]),
        4 => o(&[("@value", t("x")), ("@type", t("U"))]),
        _ => t("x"),
    };
    let mid = match wrap {
        0 => mid,
        _ => o(&[("U", mid)]),
    };
    let mut top = o(&[("k", mid), ("s", t("a"))]);
    if sym::choice(2) == 1 {
        top.set("@type", t("U"))
    }
    top.set("@context", ctx);
    diff(&top, &[], false, true);
}

/// Remote contexts: what they are resolved against, cycles, and what goes
/// wrong.
#[no_mangle]
pub extern "C" fn h_ctx_remote() {
    let c2 = pick(&[
        o(&[("@context", o(&[("p", t("http://two.x/p"))]))]),
        o(&[("@context", a(&[t("one"), o(&[("p", t("http://two.x/p"))])]))]),
        o(&[("@context", o(&[("@base", t("http://two.x/")), ("@vocab", t("v2#"))]))]),
        o(&[("@context", N)]),
        o(&[("@context", t("http://r.x/d/two"))]),
        o(&[("p", t("http://two.x/p"))]),
        a(&[]),
        t("x"),
        o(&[("@context", T)]),
        o(&[("@context", o(&[("p", o(&[("@id", t("http://two.x/p")), ("@context", t("../d/three"))]))]))]),
    ]);
    let c1 = pick(&[
        o(&[("@context", t("two"))]),
        o(&[("@context", a(&[o(&[("p", t("http://one.x/p")), ("q", t("http://one.x/q"))]), t("/d/two")]))]),
        o(&[("@context", o(&[("p", o(&[("@id", t("http://one.x/p")), ("@context", t("two"))]))])), ("x", T)]),
        o(&[("@context", o(&[("@import", t("two")), ("p", t("http://one.x/p"))]))]),
    ]);
    let docs = [
        (pick(&["http://r.x/d/one", "http://r.x/d/one>http://r.x/e/one"]).to_string(), c1),
        ("http://r.x/d/two".to_string(), c2),
        ("http://r.x/e/two".to_string(), o(&[("@context", o(&[("p", t("http://etwo.x/p"))]))])),
        ("http://r.x/d/three".to_string(), o(&[("@context", o(&[("q", t("http://three.x/q"))]))])),
    ];
    let ctx = match sym::choice(4) {
        0 => t("http://r.x/d/one"),
        1 => a(&[t("http://r.x/d/one"), t("http://r.x/d/two")]),
        2 => a(&[o(&[("@vocab", t("http://v.x/"))]), t("http://r.x/d/one"), o(&[("q", t("http://e.x/q"))])]),
        _ => t("../../none"),
    };
    let doc = o(&[("@context", ctx), ("@id", t("i")), ("p", pick(&[t("v"), o(&[("q", t("w"))])])), ("q", t("z"))]);
    diff(&doc, &docs, false, true);
}

/// Processing mode json-ld-1.0: what 1.1 added is refused.
#[no_mangle]
pub extern "C" fn h_ctx_mode10() {
    let doc = match sym::choice(3) {
        0 => {
            let (k, v) = attr([1, 2, 5, 6, 7, 8, 9, 0, 10][sym::choice(9)]);
            let mut d = o(&[("@id", t("http://e.x/p"))]);
            if k == "@reverse" {
                d = o(&[])
            }
            d.set(k, v);
            o(&[("@context", o(&[("q", t("http://q.x/")), ("p", d)])), ("p", pick(&[t("v"), o(&[("k", t("w"))])]))])
        }
        1 => {
            let (k, v) = pick(&[
                ("@version", n("1.1")), ("@import", t("http://r.x/i")), ("@propagate", F), ("@protected", T),
                ("@direction", t("ltr")), ("@vocab", t("")), ("@vocab", t("rel#")), ("@vocab", t("_:b")), ("@base", t("x/")),
                ("@language", t("en")), ("@type", o(&[("@container", t("@set"))])), ("@foo", t("http://e.x/f")),
            ]);
            let docs = o(&[(k, v)]);
            o(&[("@context", docs), ("@id", t("i")), ("http://e.x/p", t("v"))])
        }
        _ => {
            let e = pick(&[
                ("@included", a(&[o(&[("http://e.x/p", T)])])),
                ("@nest", o(&[("http://e.x/p", T)])),
                ("@direction", t("ltr")),
                ("http://e.x/p", o(&[("@value", t("x")), ("@direction", t("ltr"))])),
                ("http://e.x/p", o(&[("@value", o(&[])), ("@type", t("@json"))])),
                ("http://e.x/p", o(&[("@list", a(&[a(&[t("x")])]))])),
                ("http://e.x/p", o(&[("@list", a(&[o(&[("@list", a(&[]))])]))])),
                ("ty", t("http://e.x/U")),
            ]);
            let mut d = o(&[("@context", o(&[("ty", t("@type"))])), ("@id", t("i")), ("@type", t("http://e.x/T")), ("http://e.x/q", t("v"))]);
            d.set(e.0, e.1);
            d
        }
    };
    diff(&doc, &[], true, true);
}

/// An imported context, entry by entry, beside what the importing one says.
#[no_mangle]
pub extern "C" fn h_ctx_import() {
    let entry = |own: bool, i: usize| -> Option<(&'static str, J)> {
        let x = if own { "http://o.x/" } else { "http://i.x/" };
        Some(match i {
            0 => ("@base", if own { pick(&[t("http://o.x/"), N, t("own/")]) } else { pick(&[t("http://i.x/d/"), N, t("../imported/")]) }),
            1 => ("@vocab", pick(&[J::Str(format2(x, "v#")), N])),
            2 => ("@language", pick(&[if own { t("en") } else { t("it") }, N])),
            3 => ("@direction", pick(&[if own { t("ltr") } else { t("rtl") }, N])),
            4 => ("@protected", pick(&[T, F])),
            5 => ("@type", pick(&[o(&[("@container", t("@set"))]), o(&[("@container", t("@set")), ("@protected", T)])])),
            6 => ("@propagate", F),
            7 => ("@version", n("1.1")),
            8 => ("p", pick(&[J::Str(format2(x, "p")), o(&[("@id", J::Str(format2(x, "p"))), ("@type", t("@id"))]), N])),
            9 => ("p", pick(&[t("q:p"), o(&[("@type", t("@id"))])])),
            10 => ("q", J::Str(format2(x, "q#"))),
            11 => ("p", o(&[("@id", J::Str(format2(x, "p"))), ("@context", t("nested"))])),
            _ => return None,
        })
    };
    let mut imported = o(&[("q", t("http://i.x/q/"))]);
    let mut own = o(&[("@import", t("http://r.x/d/i"))]);
    for (own_, c) in [(false, &mut imported), (true, &mut own)] {
        if let Some((k, v)) = entry(own_, sym::choice(13)) {
            c.remove(k);
            c.set(k, v)
        }
    }
    let third = pick(&[None, Some(o(&[("p", t("http://t.x/p"))])), Some(o(&[("@type", o(&[("@container", t("@set"))]))])), Some(N)]);
    let before = o(&[("@vocab", t("http://b.x/v/")), ("@language", t("fr")), ("@direction", t("ltr")), ("@base", t("http://b.x/z/"))]);
    let mut v = if sym::choice(2) == 0 { vec![] } else { vec![before] };
    let remote = sym::choice(2) == 1;
    v.push(if remote { t("http://s.x/main") } else { own.clone() });
    v.extend(third);
    let docs = [
        ("http://r.x/d/i".to_string(), o(&[("@context", imported)])),
        ("http://s.x/main".to_string(), o(&[("@context", own)])),
        ("http://s.x/nested".to_string(), o(&[("@context", o(&[("z", t("http://s.x/z"))]))])),
        ("http://r.x/d/nested".to_string(), o(&[("@context", o(&[("z", t("http://r.x/z"))]))])),
        ("http://b.x/d/nested".to_string(), o(&[("@context", o(&[("z", t("http://b.x/nz"))]))])),
    ];
    let inner = o(&[("@id", t("in")), ("z", T), ("p", t("w"))]);
    let doc = o(&[
        ("@context", J::Arr(v)),
        ("@id", t("rel")),
        ("@type", t("u")),
        ("p", if sym::choice(2) == 0 { t("s") } else { inner }),
        ("t", t("s")),
    ]);
    diff(&doc, &docs, false, false);
}

/// Scoped contexts given by reference, from a context that is itself remote:
/// by property, by type, through `@nest`, and through a map of types.
#[no_mangle]
pub extern "C" fn h_ctx_relative() {
    let place = sym::choice(4);
    let kind = sym::choice(5);
    let scoped = pick(&[t("sc"), t("/d/sc"), t("http://r.x/e/sc"), a(&[o(&[("y", t("http://in.x/y"))]), t("../e/sc")]), o(&[("@import", t("sc"))]), t("missing")]);
    let mut def = o(&[("@id", t("http://e.x/k"))]);
    def.set("@context", scoped);
    match kind {
        2 => def.set("@id", t("@nest")),
        3 => def.set("@container", t("@index")),
        _ => (),
    }
    let c = if kind == 4 {
        o(&[("k", def), ("m", o(&[("@id", t("http://e.x/m")), ("@container", t("@type"))]))])
    } else {
        o(&[("k", def)])
    };
    let sc = |s: &str| o(&[("@context", o(&[("z", J::Str(format2(s, "z")))]))]);
    let docs = [
        ("http://r.x/d/c>http://r.x/d/c".to_string(), o(&[("@context", c.clone())])),
        ("http://r.x/o/c>http://r.x/e/c".to_string(), o(&[("@context", c.clone())])),
        ("http://r.x/d/outer".to_string(), o(&[("@context", a(&[t("../o/c")]))])),
        ("http://r.x/d/sc".to_string(), sc("http://rd.x/")),
        ("http://r.x/e/sc".to_string(), sc("http://re.x/")),
        ("http://r.x/o/sc".to_string(), sc("http://ro.x/")),
        ("http://b.x/d/sc".to_string(), sc("http://bd.x/")),
        ("http://b.x/e/sc".to_string(), sc("http://be.x/")),
    ];
    let ctx = match place {
        0 => t("http://r.x/d/c"),
        1 => t("http://r.x/o/c"),
        2 => t("http://r.x/d/outer"),
        _ => c,
    };
    let leaf = || o(&[("z", t("v")), ("y", T), ("http://e.x/w", o(&[("z", T)]))]);
    let mut doc = match kind {
        0 | 2 => o(&[("k", leaf())]),
        1 => {
            let mut d = leaf();
            d.set("@type", t("k"));
            o(&[("http://e.x/n", d)])
        }
        3 => o(&[("k", o(&[("i", leaf())]))]),
        _ => o(&[("m", o(&[("k", leaf())]))]),
    };
    if sym::choice(2) == 1 {
        // Contexts before do not matter.
        doc.set("@context", a(&[o(&[("@base", t("http://elsewhere.x/"))]), ctx]))
    } else {
        doc.set("@context", ctx)
    }
    diff(&doc, &docs, false, false);
}

/// Three contexts, and what they leave protected.
#[no_mangle]
pub extern "C" fn h_ctx_chain() {
    let one = |i: usize| -> J {
        match i {
            0 => o(&[("p", o(&[("@id", t("http://e.x/p")), ("@protected", T)]))]),
            1 => o(&[("p", t("http://e.x/p"))]),
            2 => o(&[("p", t("http://e.x/other"))]),
            3 => o(&[("@protected", T), ("p", t("http://e.x/p"))]),
            4 => o(&[("@protected", T), ("p", o(&[("@id", t("http://e.x/p")), ("@protected", F)]))]),
            5 => o(&[("p", N)]),
            6 => N,
            7 => o(&[("@protected", T), ("p", N)]),
            8 => o(&[("@protected", T), ("q", t("http://e.x/q"))]),
            9 => t("http://r.x/c"),
            _ => o(&[("@base", t("http://z.x/")), ("@vocab", t("rel#"))]),
        }
    };
    let docs = [("http://r.x/c".to_string(), o(&[("@context", one(sym::choice(4)))]))];
    let (x, y, z) = (one(sym::choice(11)), one(sym::choice(11)), one(sym::choice(11)));
    let body = o(&[("@id", t("x")), ("p", t("v")), ("q", t("w"))]);
    let mut body = body;
    let doc = match sym::choice(4) {
        0 => {
            body.set("@context", a(&[x, y, z]));
            body
        }
        1 => {
            body.set("@context", z);
            o(&[("@context", a(&[x, y])), ("http://e.x/k", body)])
        }
        2 => {
            body.set("@context", z);
            o(&[("@context", a(&[x, o(&[("k", o(&[("@id", t("http://e.x/k")), ("@context", y)]))])])), ("k", body)])
        }
        _ => {
            body.set("@context", z);
            body.set("@type", t("K"));
            o(&[("@context", a(&[x, o(&[("K", o(&[("@id", t("http://e.x/K")), ("@context", y)]))])])), ("@graph", body)])
        }
    };
    diff(&doc, &docs, false, false);
}

/// What a type-scoped context applies to: the node of the type, and not the
/// nodes below it; but values, lists, sets and maps on the way.
#[no_mangle]
pub extern "C" fn h_ctx_revert() {
    let (d, codes) = g_revert(4);
    diff(&d, &[], false, codes)
}
pub fn g_revert(orders: usize) -> (J, bool) {
    let mut tc = o(&[("s", o(&[("@id", t("http://t.x/s")), ("@type", t("@id"))])), ("i", t("@id"))]);
    match sym::choice(3) {
        0 => (),
        1 => tc.set("@propagate", T),
        _ => {
            tc.set("@vocab", t("http://t.x/"));
            tc.set("@base", t("http://t.x/b/"));
            tc.set("@language", t("fr"))
        }
    }
    let mut k = o(&[("@id", t("http://e.x/k"))]);
    let place = sym::choice(4);
    let c = if place == 0 { sym::choice(9) } else { 0 };
    match c {
        1 => k.set("@container", t("@list")),
        2 => k.set("@container", t("@index")),
        3 => k.set("@container", t("@id")),
        4 => k.set("@container", t("@type")),
        5 => k.set("@container", t("@graph")),
        6 => k.set("@container", a(&[t("@graph"), t("@index")])),
        7 => k.set("@type", t("@id")),
        8 => k.set("@container", t("@language")),
        _ => (),
    }
    let ctx = o(&[
        ("@vocab", t("http://v.x/")),
        ("s", t("http://e.x/s")),
        ("k", k),
        ("r", o(&[("@reverse", t("http://e.x/r"))])),
        ("U", o(&[("@id", t("http://e.x/U")), ("@context", tc)])),
        ("ty", t("@type")),
        ("W", o(&[("@id", t("http://e.x/W")), ("@context", o(&[("s", t("http://w.x/s")), ("l", t("http://w.x/l"))]))])),
    ]);
    let item = |i: usize| match i {
        0 => o(&[("s", t("b"))]),
        1 => o(&[("@id", t("x"))]),
        2 => o(&[("@id", t("x")), ("s", t("b"))]),
        3 => o(&[("i", t("x"))]),
        4 => o(&[("i", t("x")), ("s", t("b"))]),
        5 => o(&[("@value", t("x")), ("@type", t("y"))]),
        6 => o(&[("@list", a(&[o(&[("s", t("b"))]), t("x")]))]),
        7 => o(&[("@set", a(&[o(&[("s", t("b"))]), t("x")]))]),
        8 => a(&[o(&[("s", t("b"))]), o(&[("@id", t("x"))])]),
        9 => t("x"),
        10 => o(&[("@graph", a(&[o(&[("s", t("b"))])]))]),
        11 => o(&[("@type", t("W")), ("s", t("b")), ("l", t("c"))]),
        12 => o(&[("@nest", o(&[("s", t("b"))]))]),
        _ => o(&[("@context", o(&[("l", t("http://in.x/l"))])), ("s", t("b")), ("l", t("c"))]),
    };
    let v = item(sym::choice(14));
    let v = match c {
        2 | 3 | 6 | 8 => o(&[("a", v)]),
        4 => o(&[(pick(&["U", "W", "a"]), v)]),
        _ => v,
    };
    let mut d = o(&[("s", t("a"))]);
    match sym::choice(orders) {
        0 => d.set("@type", t("U")),
        1 => d.set("ty", a(&[t("U"), t("W")])),
        2 => {
            // Scoped contexts apply in the order of the keys, then of the types.
            d.set("ty", t("U"));
            d.set("@type", t("W"))
        }
        _ => {
            d.set("ty", t("W"));
            d.set("@type", t("U"))
        }
    }
    match place {
        0 => d.set("k", v),
        1 => d.set("@included", v),
        2 => d.set("r", v),
        _ => d.set("@graph", v),
    }
    d.set("@context", ctx);
    (d, true)
}

/// A protected term defined again, the same way or with any one or two of
/// its attributes changed.
#[no_mangle]
pub extern "C" fn h_ctx_redefine() {
    let attribute = |k: usize, other: bool| -> (&'static str, J) {
        match k {
            0 => ("@type", t(if other { "@vocab" } else { "@id" })),
            1 => ("@language", if other { N } else { t("en") }),
            2 => ("@direction", if other { N } else { t("rtl") }),
            3 => ("@nest", t(if other { "nn" } else { "@nest" })),
            4 => ("@index", t(if other { "http://e.x/j" } else { "http://e.x/i" })),
            5 => ("@container", if other { a(&[t("@index"), t("@set")]) } else { t("@index") }),
            6 => ("@prefix", if other { F } else { T }),
            7 => ("@context", if other { o(&[("s", t("http://e.x/s2"))]) } else { o(&[("s", t("http://e.x/s"))]) }),
            8 => ("@id", t(if other { "http://e.x/q/" } else { "http://e.x/p/" })),
            9 => ("@reverse", t(if other { "http://e.x/q/" } else { "http://e.x/p/" })),
            _ => ("@protected", J::Bool(!other)),
        }
    };
    // 0: absent, 1: one value, 2: the other.
    let x = sym::choice(11);
    let y = x + sym::choice(11 - x);
    let (mut was, mut is) = ([0; 11], [0; 11]);
    was[8] = 1;
    is[8] = 1;
    for k in if x == y { vec![x] } else { vec![x, y] } {
        was[k] = sym::choice(3);
        is[k] = sym::choice(3);
        if k == 9 {
            for d in [&mut was, &mut is] {
                if d[9] > 0 {
                    d[8] = 0
                }
            }
        }
        if k == 4 {
            was[5] = 1;
            is[5] = 1;
        }
    }
    let build = |d: &[usize; 11]| {
        let mut j = o(&[]);
        for (k, v) in d.iter().enumerate() {
            if *v > 0 {
                let (k, v) = attribute(k, *v == 2);
                j.set(k, v)
            }
        }
        j
    };
    let (was, is) = (build(&was), build(&is));
    let value = a(&[t("v"), o(&[("@id", t("http://e.x/o")), ("s", t("w"))])]);
    let body = match is.get("@nest") {
        Some(_) => o(&[("nn", o(&[("p", value)])), ("k", t("v"))]),
        None => o(&[("p", value)]),
    };
    let first = o(&[("@protected", T), ("p", was)]);
    let second = o(&[("nn", t("@nest")), ("p", is)]);
    let (doc, docs) = match sym::choice(3) {
        0 => {
            let mut d = body;
            d.set("@context", a(&[first, second]));
            (d, vec![])
        }
        1 => {
            let mut d = body;
            d.set("@context", second);
            (o(&[("@context", first), ("http://e.x/k", d)]), vec![])
        }
        _ => {
            let mut d = body;
            d.set("@context", a(&[t("http://r.x/c"), second]));
            (d, vec![("http://r.x/c".to_string(), o(&[("@context", first)]))])
        }
    };
    diff(&doc, &docs, false, x == y);
}
