//! RDF serialization against the reference.
use crate::b::*;
use crate::glue::{self, Docs};
use crate::p_expand::BASE;
use crate::refimpl::json::*;
use crate::refimpl::rdf::*;
use crate::sym;
use json_ld::rdf::{RdfDirection, Value};
use json_ld::{JsonLdProcessor, Options, ValidId};
use rdf_types::LiteralType;

fn id(x: &ValidId) -> String {
    match x {
        ValidId::Iri(i) => i.as_str().to_string(),
        ValidId::Blank(b) => b.as_str().to_string(),
    }
}

/// The quads of a document, without repetition.
pub fn quads(doc: &J, base: Option<&str>, direction: Direction, generalized: bool) -> Option<Vec<Quad>> {
    let d = Docs::default();
    let mut o = Options::default();
    o.rdf_direction = match direction {
        Direction::Drop => None,
        Direction::I18n => Some(RdfDirection::I18nDatatype),
        Direction::Compound => Some(RdfDirection::CompoundLiteral),
    };
    o.produce_generalized_rdf = generalized;
    let mut g = rdf_types::generator::Blank::new();
    let r = glue::rdoc(doc, base);
    let mut rdf = match glue::block_on(r.to_rdf_using(&mut g, &d, o)) {
        Ok(r) => r,
        Err(_) => return None,
    };
    let mut out = vec![];
    for rdf_types::Quad(s, p, o, g) in rdf.cloned_quads() {
        let o = match o {
            Value::Id(i) => Term::Node(id(&i)),
            Value::Literal(l) => Term::Lit(l.value.to_string(), match &l.type_ {
                LiteralType::Any(t) => t.as_str().to_string(),
                LiteralType::LangString(t) => cat(&["@", t.as_str()]),
            }),
        };
        let g = match g {
            Some(g) => id(&g),
            None => "@default".to_string(),
        };
        let q = Quad { s: id(&s), p: id(&p), o, g };
        if !out.contains(&q) {
            out.push(q)
        }
    }
    Some(out)
}

pub fn diff(doc: &J, base: Option<&str>, direction: Direction, generalized: bool) {
    let expanded = match glue::expand(doc, base, &Docs::default(), Options::default()) {
        Ok(mut e) => {
            norm(&mut e);
            e
        }
        Err(_) => return sym::cover("no expanded form"),
    };
    let mut ser = Ser::new(direction, generalized);
    if ser.document(&expanded).is_err() {
        return sym::cover("conflicting indexes");
    }
    let got = quads(doc, base, direction, generalized);
    #[cfg(feature = "replay")]
    {
        println!("doc  {}\nexp  {}", doc.print(), expanded.print());
        let mut show = |l: &str, q: &[Quad]| {
            for q in q {
                println!("{l} {} {} {:?} {}", q.s, q.p, q.o, q.g)
            }
        };
        show("want", &ser.out);
        show("got ", got.as_deref().unwrap_or(&[]));
    }
    match got {
        Some(got) => {
            sym::observe(&[got.len() as u8]);
            sym::cover("both succeed");
            sym::check(iso_eq(&ser.out, &got), "dataset differs from the specified one")
        }
        None => sym::fail("refuses to serialize"),
    }
}

const P: &str = "http://e.x/p";
const Q: &str = "http://e.x/q";
const A: &str = "http://e.x/a";

/// Values, in every place.
#[no_mangle]
pub extern "C" fn h_rdf_values() {
    let mut v = match sym::choice(2) {
        0 => o(&[("@value", n(pick(NUMBERS).0))]),
        _ => o(&[(
            "@value",
            pick(&[t("v"), T, F, o(&[("b", n("1.0")), ("a", a(&[n("1e2"), N, t("x")]))]), a(&[]), N, n("1e21")]),
        )]),
    };
    match sym::choice(6) {
        0 => (),
        1 => v.set("@type", pick(&[t("http://e.x/T"), t("_:t"), t("@json"), t("rel")])),
        // Whether the double keeps the sign of a zero is not said.
        2 if matches!(v.get("@value"), Some(J::Num(x)) if x.starts_with("-0") && !x.contains('2')) => return,
        2 => v.set("@type", t("http://www.w3.org/2001/XMLSchema#double")),
        3 => v.set("@type", t("http://www.w3.org/2001/XMLSchema#integer")),
        4 => v.set("@language", pick(&[t("en"), t("EN-us"), t("a_b"), t("")])),
        _ => {
            v.set("@direction", pick(&[t("ltr"), t("rtl")]));
            if sym::choice(2) == 1 {
                v.set("@language", pick(&[t("en"), t("EN-us")]))
            }
        }
    }
    let dir = if v.has("@direction") {
        pick(&[Direction::Drop, Direction::I18n, Direction::Compound])
    } else {
        Direction::Drop
    };
    let doc = match sym::choice(6) {
        0 => o(&[("@id", t(A)), (P, v)]),
        1 => o(&[("@id", t(A)), (P, o(&[("@list", a(&[v.clone(), n("1"), v]))]))]),
        2 => o(&[("@id", t("_:g")), ("@graph", o(&[("@id", t(A)), (P, v)]))]),
        3 => o(&[("@included", o(&[("@id", t(A)), (P, v)]))]),
        4 => o(&[("@id", t(A)), ("@reverse", o(&[(Q, o(&[(P, v)]))]))]),
        _ => o(&[("@id", t(A)), (P, o(&[("@graph", o(&[(Q, o(&[("@list", v)]))]))]))]),
    };
    diff(&doc, Some(BASE), dir, false)
}

fn item() -> J {
    pick(&[
        t("v"),
        o(&[("@id", t("_:b"))]),
        o(&[("@id", t("rel"))]),
        o(&[("@value", t("x")), ("@language", t("a_b"))]),
        o(&[("@value", t("x")), ("@direction", t("ltr"))]),
        o(&[("@list", a(&[]))]),
        o(&[("@list", a(&[t("v"), o(&[("@id", t("rel"))])]))]),
        o(&[("@list", a(&[o(&[("@list", a(&[t("w")]))]), t("v")]))]),
        o(&[(Q, o(&[("@list", a(&[t("w")]))]))]),
        o(&[("@id", t("_:b")), ("@graph", o(&[(Q, o(&[("@list", a(&[t("w")]))]))]))]),
    ])
}

/// Lists.
#[no_mangle]
pub extern "C" fn h_rdf_lists() {
    let mut l = vec![];
    for _ in 0..sym::choice(4) {
        l.push(item())
    }
    let doc = match sym::choice(2) {
        0 => o(&[(P, o(&[("@list", J::Arr(l))]))]),
        _ => o(&[("@id", t(A)), ("@graph", o(&[("@id", t(A)), (P, o(&[("@list", J::Arr(l))]))]))]),
    };
    diff(&doc, None, Direction::Compound, false)
}

/// Nodes with well-formed, blank and ill-formed names in every role.
#[no_mangle]
pub extern "C" fn h_rdf_names() {
    let names = [A, "_:x", "rel", "http://e.x/%zz", "_:0", "_:1"];
    let (x, y) = (pick(&names), pick(&names));
    let props = [P, "_:x", "_:0", "rel"];
    let p = pick(&props);
    let x_ = || ("@id", t(x));
    let doc = match sym::choice(9) {
        0 => o(&[x_(), (p, o(&[("@id", t(y))]))]),
        1 => o(&[x_(), (p, t("v")), ("@type", t(y))]),
        2 => o(&[x_(), (p, t("v")), ("@graph", o(&[("@id", t(y)), (p, t("w"))]))]),
        3 => o(&[x_(), ("@reverse", o(&[(p, o(&[("@id", t(y)), (P, t("w"))]))]))]),
        4 => o(&[x_(), (p, o(&[(Q, o(&[("@id", t(y))]))])), ("@included", o(&[("@id", t(y)), (P, t("w"))]))]),
        5 => a(&[o(&[x_(), (p, t("v"))]), o(&[("@id", t(y)), (P, t("v"))]), o(&[(P, t("v"))])]),
        6 => o(&[(p, a(&[o(&[(P, t("v"))]), o(&[("@id", t(x)), (Q, a(&[]))])])), ("@type", t(y))]),
        7 => o(&[x_(), ("@graph", a(&[o(&[("@id", t(y)), ("@graph", o(&[(P, t("v"))]))]), o(&[(p, t("w"))])]))]),
        _ => o(&[(p, o(&[("@value", t("v")), ("@type", t(y))])), ("@graph", o(&[x_(), ("@type", a(&[t(x), t("_:x")]))]))]),
    };
    // Ill-formed names are found in documents whose base and vocabulary do not resolve them.
    diff(&doc, None, Direction::Drop, sym::choice(2) == 1)
}
