//! JSON-LD from RDF datasets.
use crate::b::*;
use crate::glue;
use crate::refimpl::json::*;
use crate::refimpl::rdf::{cat, iso_eq, Direction, Quad, Ser, Term, RDF, XSD};
use crate::sym;
use iref::Iri;
use json_ld::ExpandedDocument;
use rdf_types::{BlankIdBuf, Id, Literal, LiteralType};

type Rt = rdf_types::Term;

fn node(x: &str) -> Rt {
    if x.starts_with("_:") {
        Rt::Id(Id::Blank(BlankIdBuf::new(x.to_string()).unwrap()))
    } else {
        Rt::Id(Id::Iri(Iri::new(x).unwrap().to_owned()))
    }
}
fn term(x: &Term) -> Rt {
    match x {
        Term::Node(x) => node(x),
        Term::Lit(v, t) => Rt::Literal(Literal::new(
            v.clone(),
            match t.strip_prefix('@') {
                Some(l) => LiteralType::LangString(langtag::LangTagBuf::new(l.to_string()).unwrap()),
                None => LiteralType::Any(Iri::new(t.as_str()).unwrap().to_owned()),
            },
        )),
    }
}
fn q(s: &str, p: &str, o: Term, g: &str) -> Quad {
    Quad { s: s.to_string(), p: p.to_string(), o, g: g.to_string() }
}
fn to(x: &str) -> Term {
    Term::Node(x.to_string())
}
fn lit(x: &str) -> Term {
    Term::Lit(x.to_string(), cat(&[XSD, "string"]))
}
fn rdf(x: &str) -> String {
    cat(&[RDF, x])
}

/// The expanded document made from the quads.
fn from(quads: &[Quad]) -> Option<J> {
    let x: Vec<_> = quads
        .iter()
        .map(|q| (node(&q.s), node(&q.p), term(&q.o), if q.g == "@default" { None } else { Some(node(&q.g)) }))
        .collect();
    let x = x.iter().map(|(s, p, o, g)| rdf_types::Quad(s, p, o, g.as_ref()));
    match ExpandedDocument::from_interpreted_quads(&(), &(), x) {
        Ok(d) => Some(glue::to_j(d)),
        Err(_) => None,
    }
}
/// How many lists, and how many node objects with rdf:first or rdf:rest?
fn lists(j: &J) -> (usize, usize) {
    match j {
        J::Arr(a) => a.iter().map(lists).fold((0, 0), |x, y| (x.0 + y.0, x.1 + y.1)),
        J::Obj(x) => {
            let mut r = (j.has("@list") as usize, (j.has(&rdf("first")) || j.has(&rdf("rest"))) as usize);
            for (k, x) in x {
                if k != "@value" {
                    let y = lists(x);
                    r = (r.0 + y.0, r.1 + y.1)
                }
            }
            r
        }
        _ => (0, 0),
    }
}

/// The document must say what the quads say.
fn check(quads: &[Quad]) -> Option<J> {
    let mut d: Vec<Quad> = vec![];
    for q in quads {
        if !d.contains(q) {
            d.push(q.clone())
        }
    }
    let got = from(&d);
    #[cfg(feature = "replay")]
    {
        for q in &d {
            println!("quad {} {} {:?} {}", q.s, q.p, q.o, q.g)
        }
        println!("got  {}", got.as_ref().map(J::print).unwrap_or_default());
    }
    let got = match got {
        Some(x) => x,
        None => sym::fail("refuses a dataset"),
    };
    let mut ser = Ser::new(Direction::Drop, true);
    if ser.document(&got).is_err() {
        sym::fail("makes conflicting indexes")
    }
    #[cfg(feature = "replay")]
    for q in &ser.out {
        println!("says {} {} {:?} {}", q.s, q.p, q.o, q.g)
    }
    sym::cover("made");
    // List nodes may leave their type out.
    let cut = |x: &[Quad]| -> Vec<Quad> {
        let cell = |q: &Quad| x.iter().any(|r| r.s == q.s && r.g == q.g && r.p == rdf("rest"));
        x.iter().filter(|q| !(q.p == rdf("type") && q.o == to(&rdf("List")) && q.s.starts_with("_:") && cell(q))).cloned().collect()
    };
    sym::check(iso_eq(&cut(&d), &cut(&ser.out)), "the document does not say what the dataset says");
    Some(got)
}

const A: &str = "http://e.x/a";
const B: &str = "http://e.x/b";
const P: &str = "http://e.x/p";

/// Any two or three quads over few terms.
#[no_mangle]
pub extern "C" fn h_from_quads() {
    let any = |gs: &[&str]| {
        let s = pick(&[A, "_:x", "_:y"]);
        let (p, o) = match sym::choice(12) {
            0 => (P.to_string(), to(A)),
            1 => (P.to_string(), to("_:x")),
            2 => (P.to_string(), to("_:y")),
            3 => (P.to_string(), lit("v")),
            4 => (P.to_string(), to(&rdf("nil"))),
            5 => (rdf("type"), to("_:x")),
            6 => (rdf("type"), to(&rdf("List"))),
            7 => (rdf("first"), to("_:y")),
            8 => (rdf("rest"), to("_:x")),
            9 => (rdf("type"), lit("v")),
            10 => (rdf("first"), lit("w")),
            _ => (rdf("rest"), to(&rdf("nil"))),
        };
        q(s, &p, o, pick(gs))
    };
    let mut d = vec![any(&["@default", "_:x"]), any(&["@default", A])];
    match sym::choice(6) {
        0 => (),
        1 => d.push(q("_:x", &rdf("first"), lit("v"), "@default")),
        2 => d.push(q("_:y", P, to("_:x"), "@default")),
        3 => d.push(q("_:x", &rdf("type"), to(A), "@default")),
        4 => d.push(q("_:x", P, to("_:x"), "@default")),
        _ => d.push(q(B, P, to("_:y"), A)),
    }
    check(&d);
}

/// Nodes and names of graphs shared between graphs.
#[no_mangle]
pub extern "C" fn h_from_graphs() {
    let any = |gs: &[&str]| {
        let o = pick(&[lit("v"), to("_:x"), to("_:g"), to(A)]);
        q(pick(&[A, "_:x", "_:g"]), P, o, pick(gs))
    };
    let mut d = vec![any(&["@default", "_:g", A]), any(&["@default", "_:g", "_:x"])];
    match sym::choice(8) {
        0 => (),
        1 => d.push(q("_:x", P, to("_:g"), "_:g")),
        2 => d.push(q("_:g", P, to("_:x"), "@default")),
        3 => d.push(q(A, P, to("_:g"), "@default")),
        4 => d.push(q("_:y", P, to("_:x"), "_:x")),
        5 => d.push(q("_:g", &rdf("type"), to("_:g"), A)),
        6 => d.push(q(A, &rdf("type"), to("_:x"), "_:g")),
        _ => d.push(q("_:y", "_:x", lit("w"), "_:y")),
    }
    check(&d);
}

/// Lists, well formed and not.
#[no_mangle]
pub extern "C" fn h_from_lists() {
    let g = pick(&["@default", "http://e.x/g", "_:g"]);
    let n = sym::choice(4);
    let names = ["_:n0", "_:n1", "_:n2", "_:n3"];
    let (first, rest, nil) = (rdf("first"), rdf("rest"), rdf("nil"));
    let head = if n == 0 { nil.as_str() } else { names[0] };
    let mut d = vec![];
    // What refers to the list.
    let refs = sym::choice(6);
    match refs {
        0 => (),
        1 => d.push(q(A, P, to(head), g)),
        2 => d.push(q("_:m", P, to(head), g)),
        3 => {
            d.push(q(A, P, to(head), g));
            d.push(q(B, P, to(head), g))
        }
        4 => {
            d.push(q("_:m", &first, to(head), g));
            d.push(q("_:m", &rest, to(&nil), g));
            d.push(q(A, P, to("_:m"), g))
        }
        _ => {
            d.push(q(A, P, to(head), g));
            d.push(q(A, P, to(&nil), g))
        }
    }
    for i in 0..n {
        let item = match sym::choice(3) {
            0 => lit("v"),
            1 => to(B),
            _ => to(&cat(&["_:i", &i.to_string()])),
        };
        d.push(q(names[i], &first, item, g));
        d.push(q(names[i], &rest, to(if i + 1 < n { names[i + 1] } else { &nil }), g));
    }
    let at = if n == 0 { "_:n0" } else { names[sym::choice(n)] };
    let odd = sym::choice(14);
    match odd {
        0 => (),
        1 => d.push(q(at, &rdf("type"), to(&rdf("List")), g)),
        2 => d.push(q(at, &rdf("type"), to(B), g)),
        3 => d.push(q(at, P, lit("v"), g)),
        4 => d.push(q(at, &first, lit("w"), g)),
        5 => d.push(q(at, &rest, to(&nil), g)),
        6 => d.push(q(at, &rest, to(B), g)),
        7 => d.push(q(B, P, to(at), g)),
        8 => d.push(q("_:i0", P, to(at), g)),
        9 => d.push(q("_:i0", P, lit("v"), g)),
        10 => d.push(q("_:i0", &first, lit("v"), g)),
        11 => d.push(q(B, P, lit("v"), at)),
        12 => d.push(q(A, P, to(at), if g == "@default" { "http://e.x/g" } else { "@default" })),
        _ => {
            let i = d.iter().position(|x| x.s == at).unwrap_or(0);
            if i < d.len() {
                d.remove(i);
            }
        }
    }
    if d.is_empty() {
        return;
    }
    let got = match check(&d) {
        Some(x) => x,
        None => return,
    };
    if (odd == 0 || odd == 1) && n > 0 && (refs == 1 || refs == 2 || refs == 4) {
        sym::cover("well formed");
        let (l, f) = lists(&got);
        sym::check(f == 0 && l == if refs == 4 { 2 } else { 1 }, "a well-formed list is not converted")
    }
}

/// Literals.
#[no_mangle]
pub extern "C" fn h_from_literals() {
    let x = |t: &str| cat(&[XSD, t]);
    // Lexical form, and the one that the JSON value stands for.
    let (v, t, w): (&str, String, &str) = match sym::choice(32) {
        0 => ("v", x("string"), "v"),
        1 => ("", x("string"), ""),
        2 => ("true", x("boolean"), "true"),
        3 => ("false", x("boolean"), "false"),
        4 => ("yes", x("boolean"), "yes"),
        5 => ("5", x("integer"), "5"),
        6 => ("-7", x("integer"), "-7"),
        7 => ("five", x("integer"), "five"),
        8 => ("INF", x("double"), "INF"),
        9 => ("NaN", x("double"), "NaN"),
        10 => ("5.5E0", x("double"), "5.5E0"),
        11 => ("1.0E21", x("double"), "1.0E21"),
        12 => ("1.0E0", x("double"), "1.0E0"),
        13 => ("5.5", x("decimal"), "5.5"),
        14 => ("2020-01-01", x("date"), "2020-01-01"),
        15 => ("5", x("int"), "5"),
        16 => ("v", "@en".to_string(), "v"),
        17 => ("v", "@de-CH".to_string(), "v"),
        18 => ("v", "http://e.x/T".to_string(), "v"),
        19 => ("true", "http://e.x/T".to_string(), "true"),
        20 => ("[1,{\"a\":null,\"b\":[]}]", rdf("JSON"), "[1,{\"a\":null,\"b\":[]}]"),
        21 => ("\"v\"", rdf("JSON"), "\"v\""),
        22 => ("null", rdf("JSON"), "null"),
        23 => ("v", "https://www.w3.org/ns/i18n#en_ltr".to_string(), "v"),
        24 => ("<a/>", rdf("XMLLiteral"), "<a/>"),
        25 => ("1", x("boolean"), "true"),
        26 => ("0", x("boolean"), "false"),
        27 => ("+5", x("integer"), "+5"),
        29 => ("5.5", x("integer"), "5.5"),
        30 => ("123456789012345678901", x("integer"), "123456789012345678901"),
        28 => ("007", x("integer"), "007"),
        _ => ("0", x("integer"), "0"),
    };
    let (l, w) = (Term::Lit(v.to_string(), t.clone()), Term::Lit(w.to_string(), t));
    let at = sym::choice(5);
    let place = |l: Term| match at {
        0 => vec![q(A, P, l, "@default")],
        1 => vec![q("_:x", P, l.clone(), "@default"), q(A, P, to("_:x"), "@default"), q(A, P, l, "@default")],
        2 => vec![q("_:x", P, l, "http://e.x/g")],
        3 => vec![q("_:x", &rdf("first"), l, "@default"), q("_:x", &rdf("rest"), to(&rdf("nil")), "@default"), q(A, P, to("_:x"), "@default")],
        _ => vec![q(A, P, l, "@default"), q(A, P, Term::Lit("other".to_string(), "@en".to_string()), "@default")],
    };
    let (d, want) = (place(l), place(w));
    let got = match from(&d) {
        Some(x) => x,
        None => sym::fail("refuses a literal"),
    };
    let mut ser = Ser::new(Direction::Drop, true);
    if ser.document(&got).is_err() {
        sym::fail("makes conflicting indexes")
    }
    #[cfg(feature = "replay")]
    {
        for q in &d {
            println!("quad {} {} {:?} {}", q.s, q.p, q.o, q.g)
        }
        println!("got  {}", got.print());
        for q in &ser.out {
            println!("says {} {} {:?} {}", q.s, q.p, q.o, q.g)
        }
    }
    sym::cover("made");
    sym::check(iso_eq(&want, &ser.out), "a literal is lost or altered")
}
