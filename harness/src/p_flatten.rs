//! Flattening against the reference.
use crate::b::*;
use crate::glue::{self, Docs};
use crate::p_expand::BASE;
use crate::refimpl::flatten as rflat;
use crate::refimpl::json::*;
use crate::sym;
use json_ld::{FlattenError, JsonLdProcessor, Options};

pub fn diff(doc: &J) {
    diff_with(doc, sym::choice(2) == 1)
}
pub fn diff_with(doc: &J, ordered: bool) {
    let d = Docs::default();
    let expanded = match glue::expand(doc, Some(BASE), &d, Options::default()) {
        Ok(mut e) => {
            norm(&mut e);
            e
        }
        Err(_) => return sym::cover("no expanded form"),
    };
    let want = rflat::flatten(&expanded);
    let mut o = Options::default();
    o.ordered = ordered;
    let mut g = rdf_types::generator::Blank::new();
    let r = glue::rdoc(doc, Some(BASE));
    let got = glue::block_on(r.flatten_using(&mut g, &d, o)).map(|v| J::from_value(&v));
    #[cfg(feature = "replay")]
    {
        println!("doc  {}\nexp  {}", doc.print(), expanded.print());
        match &want {
            Ok(w) => println!("want {}", w.print()),
            Err(_) => println!("want conflicting indexes"),
        }
        match &got {
            Ok(w) => println!("got  {}", w.print()),
            Err(e) => println!("got {e}"),
        }
    }
    match (want, got) {
        (Ok(w), Ok(mut g)) => {
            sym::observe(&[g.arr().map(|a| a.len()).unwrap_or(255) as u8]);
            sym::cover("both succeed");
            norm(&mut g);
            sym::check(rflat::iso_eq(&w, &g), "flattened document differs from the specified one");
            if ordered {
                sym::check(rflat::sorted(&g), "nodes are not ordered by identifier")
            }
        }
        (Err(_), Err(FlattenError::ConflictingIndexes(_))) => {
            sym::observe(b"c");
            sym::cover("both reject")
        }
        (_, Err(FlattenError::ConflictingIndexes(_))) => sym::fail("finds conflicting indexes where there are none"),
        (Err(_), Ok(_)) => sym::fail("accepts conflicting indexes"),
        (_, Err(_)) => sym::fail("refuses to flatten"),
    }
}

const P: &str = "http://e.x/p";
const Q: &str = "http://e.x/q";
const A: &str = "http://e.x/a";

/// A node with one of several identities and contents.
fn node(ids: &[Option<&str>]) -> J {
    let mut r = o(&[]);
    if let Some(i) = pick(ids) {
        r.set("@id", t(i))
    }
    let (k, v) = pick(&[
        (P, t("v")),
        (P, t("w")),
        ("@type", t("http://e.x/T")),
        ("@type", a(&[t("http://e.x/U"), t("_:t"), t("http://e.x/T")])),
        ("@index", t("i")),
        ("@index", t("j")),
        (Q, o(&[("@id", t("_:x"))])),
        (P, a(&[])),
        ("", N),
    ]);
    if !k.is_empty() {
        r.set(k, v)
    }
    r
}

/// Two occurrences of nodes, related in any way.
#[no_mangle]
pub extern "C" fn h_flat_nodes() {
    let mut top = node(&[Some(A), Some("_:x"), None]);
    let sub = node(&[Some(A), Some("_:x"), Some("http://e.x/c"), None]);
    match sym::choice(9) {
        0 => top.set(Q, sub),
        1 => top.set("@included", sub),
        2 => top.set("@reverse", o(&[(P, sub)])),
        3 => top.set("@graph", sub),
        4 => top.set(Q, o(&[("@list", a(&[sub, t("v")]))])),
        5 => top.set(Q, o(&[("@graph", sub)])),
        6 => top.set("_:q", sub),
        7 => top.set("http://e.x/r", o(&[("@set", a(&[o(&[("@id", t("_:x"))]), sub]))])),
        _ => {
            top = a(&[top, sub]);
        }
    }
    diff(&top)
}

fn value() -> J {
    pick(&[
        t("v"),
        n("1"),
        T,
        o(&[("@value", t("v")), ("@language", t("en"))]),
        o(&[("@value", t("v")), ("@index", t("i"))]),
        o(&[("@value", t("v")), ("@type", t("http://e.x/T"))]),
        o(&[("@value", t("v")), ("@type", t("@json"))]),
        o(&[("@id", t("_:b"))]),
        o(&[(P, t("v"))]),
        o(&[("@list", a(&[]))]),
        o(&[("@list", a(&[t("v")]))]),
        o(&[("@list", a(&[t("v")])), ("@index", t("i"))]),
        o(&[("@list", a(&[t("v"), t("v"), o(&[("@id", t("_:b"))]), o(&[("@list", a(&[n("1")]))])]))]),
        o(&[("@list", a(&[o(&[("@id", t("_:b")), ("@type", t("_:t"))]), o(&[("@id", t("_:b"))])]))]),
    ])
}

/// Values of one property, within one or two occurrences of the node.
#[no_mangle]
pub extern "C" fn h_flat_values() {
    let (v, w) = (value(), value());
    let id = pick(&["http://e.x/a", "_:a"]);
    let doc = match sym::choice(3) {
        0 => o(&[("@id", t(id)), (P, a(&[v, w]))]),
        1 => a(&[o(&[("@id", t(id)), (P, v)]), o(&[("@id", t(id)), (P, w)])]),
        _ => o(&[("@id", t(id)), ("@graph", a(&[o(&[("@id", t(id)), (P, v)]), o(&[("@id", t(id)), (P, w)])]))]),
    };
    diff(&doc)
}

/// Named graphs.
#[no_mangle]
pub extern "C" fn h_flat_graphs() {
    let ids = [Some(A), Some("_:g"), None];
    let leaf = pick(&[
        a(&[]),
        o(&[("@id", t("_:g"))]),
        o(&[("@id", t(A)), (P, t("v"))]),
        o(&[("@id", t("_:g")), ("@type", t("_:g"))]),
        o(&[("@id", t(A)), ("@index", t("i"))]),
        t("free"),
        o(&[(P, o(&[("@id", t("_:g")), ("@included", o(&[("@id", t(A)), (Q, t("w"))]))]))]),
        o(&[("@reverse", o(&[(P, o(&[("@id", t(A))]))]))]),
    ]);
    let with = |i: Option<&str>, e: &[(&str, J)]| {
        let mut r = o(e);
        if let Some(i) = i {
            r.set("@id", t(i))
        }
        r
    };
    let inner = match sym::choice(5) {
        0 => with(pick(&ids), &[("@graph", leaf)]),
        1 => with(pick(&ids), &[("@graph", leaf), (P, t("v"))]),
        2 => with(pick(&ids), &[(P, o(&[("@graph", leaf)]))]),
        3 => with(pick(&ids), &[(P, o(&[("@list", a(&[o(&[("@id", t("_:g")), ("@graph", leaf)])]))]))]),
        _ => with(pick(&ids), &[("@included", o(&[("@id", t(A)), ("@graph", leaf)]))]),
    };
    let other = pick(&[o(&[("@id", t("_:g")), (P, t("x"))]), o(&[("@id", t(A)), ("@graph", o(&[("@id", t(A)), (P, t("x"))]))])]);
    let doc = match sym::choice(3) {
        0 => a(&[inner, other]),
        1 => with(pick(&ids), &[("@graph", a(&[other, inner]))]),
        _ => o(&[("@graph", a(&[inner])), (Q, other)]),
    };
    diff(&doc)
}
