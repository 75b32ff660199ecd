//! Expanded documents as Linked Data, and Linked Data as expanded documents.
use crate::b::*;
use crate::glue::{self, Doc, Docs};
use crate::refimpl::json::*;
use crate::refimpl::rdf::*;
use crate::sym;
use iref::Iri;
use json_ld::ser;
use linked_data::{
    CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject, RdfLiteral,
    ResourceInterpretation,
};
use rdf_types::{BlankIdBuf, Id, Interpretation, LiteralType, Vocabulary};

fn id(x: &Id) -> String {
    match x {
        Id::Iri(i) => i.as_str().to_string(),
        Id::Blank(b) => b.as_str().to_string(),
    }
}
/// One lexical form for each double.
fn norm_quads(x: &[Quad]) -> Vec<Quad> {
    let mut r: Vec<Quad> = vec![];
    for q in x {
        let mut q = q.clone();
        if let Term::Lit(v, t) = &mut q.o {
            if t == "http://www.w3.org/2001/XMLSchema#double" {
                if let Ok(x) = v.parse::<f64>() {
                    *v = x.to_bits().to_string()
                }
            }
        }
        if !r.contains(&q) {
            r.push(q)
        }
    }
    r
}
/// The quads that the Linked Data crate reads.
fn seen(x: &impl LinkedData<rdf_types::interpretation::WithGenerator<Numbers>>) -> Option<Vec<Quad>> {
    let quads = linked_data::to_lexical_quads(Numbers(0), x).ok()?;
    Some(
        quads
            .iter()
            .map(|rdf_types::Quad(s, p, o, g)| Quad {
                s: id(s),
                p: p.as_str().to_string(),
                o: match o {
                    rdf_types::Term::Id(i) => Term::Node(id(i)),
                    rdf_types::Term::Literal(l) => Term::Lit(l.value.to_string(), match &l.type_ {
                        LiteralType::Any(t) => t.as_str().to_string(),
                        LiteralType::LangString(t) => cat(&["@", t.as_str()]),
                    }),
                },
                g: g.as_ref().map(id).unwrap_or("@default".to_string()),
            })
            .collect(),
    )
}
/// Names that no document has.
struct Numbers(usize);
impl<V: Vocabulary + rdf_types::vocabulary::BlankIdVocabularyMut> rdf_types::Generator<V> for Numbers {
    fn next(&mut self, v: &mut V) -> rdf_types::Id<V::Iri, V::BlankId> {
        self.0 += 1;
        let b = BlankIdBuf::new(cat(&["_:new", &self.0.to_string()])).unwrap();
        Id::Blank(v.insert_owned_blank_id(b))
    }
}
fn show(l: &str, q: &[Quad]) {
    #[cfg(feature = "replay")]
    for q in q {
        println!("{l} {} {} {:?} {}", q.s, q.p, q.o, q.g)
    }
    let _ = (l, q);
}
fn same(want: &[Quad], got: &[Quad], label: &'static str) {
    show("want", want);
    show("got ", got);
    sym::check(iso_eq(&norm_quads(want), &norm_quads(got)), label)
}
fn written(d: Doc) -> Vec<Quad> {
    let j = glue::to_j(d);
    #[cfg(feature = "replay")]
    println!("written {}", j.print());
    let mut ser = Ser::new(Direction::Drop, true);
    if ser.document(&j).is_err() {
        sym::fail("writes conflicting indexes")
    }
    ser.out
}

/// Does the document have the same quads, and what is written from it?
fn both(doc: &J) {
    let doc = match glue::expand_raw(doc, None, &Docs::default(), Default::default()) {
        Ok(x) => x,
        Err(_) => return,
    };
    let mut j = glue::to_j(doc.clone());
    norm(&mut j);
    #[cfg(feature = "replay")]
    println!("doc  {}", j.print());
    let mut s = Ser::new(Direction::Drop, true);
    if s.document(&j).is_err() {
        return;
    }
    sym::cover("read");
    match seen(&doc) {
        Some(q) => same(&s.out, &q, "the document reads as different data"),
        None => sym::fail("the document is refused as data"),
    }
    // Each object on its own, when it is not a graph: those stand for their content.
    if doc.len() == 1 && j.arr().map_or(false, |a| !a[0].has("@graph") || a[0].obj().unwrap().len() > 2) {
        let one = doc.iter().next().unwrap();
        match seen(one.inner()) {
            Some(q) => same(&s.out, &q, "the object reads as different data"),
            None => sym::fail("the object is refused as data"),
        }
    }
    match ser::serialize(&doc) {
        Ok(d) => same(&s.out, &written(d), "different data is written"),
        Err(_) => sym::fail("refuses to write"),
    }
}

const P: &str = "http://e.x/p";
const Q: &str = "http://e.x/q";
const A: &str = "http://e.x/a";
const RT: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type";
const FIRST: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#first";
const REST: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#rest";
const NIL: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#nil";

#[no_mangle]
pub extern "C" fn h_linked_values() {
    let xsd = |x: &str| J::Str(cat(&[XSD, x]));
    let (mut v, c) = match sym::choice(5) {
        // Integers are up to 64 bits: the others are computed by inline assembly.
        0 => (o(&[("@value", n(NUMBERS.iter().filter(|x| x.1.map_or(true, |i| i.parse::<i64>().is_ok())).nth(sym::choice(14)).unwrap().0))]), 2),
        1 => (o(&[("@value", n(pick(NUMBERS).0)), ("@type", xsd("double"))]), 0),
        // Numbers of other types, as the lexical forms they are.
        2 => (o(&[("@value", n(pick(&["5", "-7", "0", "-9223372036854775808"])))]), 7),
        3 => (o(&[("@value", pick(&[t("v"), t("5"), t(""), T, F]))]), 9),
        _ => (o(&[("@value", pick(&[o(&[("a", a(&[N, t("x"), n("1")]))]), a(&[]), N, t("v")])), ("@type", t("@json"))]), 0),
    };
    match if c > 0 { sym::choice(c) } else { 0 } {
        0 => (),
        1 => v.set("@type", xsd("double")),
        2 => v.set("@type", xsd("integer")),
        3 => v.set("@type", xsd("int")),
        4 => v.set("@type", xsd("decimal")),
        5 => v.set("@type", t("http://e.x/T")),
        6 => v.set("@type", xsd("string")),
        7 => v.set("@language", t("en")),
        _ => v.set("@language", t("EN-us")),
    }
    both(&match sym::choice(4) {
        0 => o(&[("@id", t(A)), (P, v)]),
        1 => o(&[("@id", t(A)), (P, o(&[("@list", a(&[v.clone(), n("1"), v]))]))]),
        2 => o(&[("@id", t("_:g")), ("@graph", o(&[("@id", t(A)), (P, v)]))]),
        _ => o(&[("@id", t(A)), (P, v), (RT, n("1"))]),
    })
}

#[no_mangle]
pub extern "C" fn h_linked_lists() {
    let mut l = vec![];
    for _ in 0..sym::choice(4) {
        l.push(pick(&[
            t("v"),
            o(&[("@id", t("_:b"))]),
            o(&[("@list", a(&[]))]),
            o(&[("@list", a(&[t("v"), o(&[("@id", t(A))])]))]),
            o(&[("@list", a(&[o(&[("@list", a(&[t("w")]))]), t("v")]))]),
            o(&[(Q, o(&[("@list", a(&[t("w")]))]))]),
            o(&[("@id", t("_:b")), ("@graph", o(&[(Q, o(&[("@list", a(&[t("w")]))]))]))]),
        ]))
    }
    let l = o(&[("@list", J::Arr(l))]);
    both(&match sym::choice(6) {
        0 => o(&[(P, l)]),
        1 => o(&[("@id", t(A)), ("@graph", o(&[("@id", t(A)), (P, l)]))]),
        2 => o(&[(P, a(&[l.clone(), l, t("v")]))]),
        3 => o(&[(P, o(&[(FIRST, t("v")), (REST, l)]))]),
        4 => o(&[(FIRST, t("v")), (REST, l)]),
        _ => o(&[(P, o(&[(FIRST, l), (REST, o(&[("@id", t(NIL))]))]))]),
    })
}

/// Nodes, and nodes that resemble lists.
#[no_mangle]
pub extern "C" fn h_linked_nodes() {
    let names = [A, "_:x", "_:y"];
    let (x, y) = (pick(&names), pick(&names));
    let x_ = || ("@id", t(x));
    let cell = || {
        let mut c = o(&[]);
        if sym::choice(2) == 1 {
            c.set("@id", t("_:c"))
        }
        match sym::choice(4) {
            0 => (),
            1 => c.set(FIRST, t("v")),
            2 => c.set(FIRST, a(&[t("v"), t("w")])),
            _ => c.set(FIRST, o(&[(Q, t("v"))])),
        }
        match sym::choice(6) {
            0 => (),
            1 => c.set(REST, o(&[("@id", t(NIL))])),
            2 => c.set(REST, a(&[o(&[("@id", t(NIL))]), o(&[("@id", t(A))])])),
            3 => c.set(REST, o(&[("@id", t("_:d")), (FIRST, t("z")), (REST, o(&[("@id", t(NIL))]))])),
            4 => c.set(REST, o(&[(FIRST, t("z")), (REST, o(&[("@id", t(NIL))]))])),
            _ => c.set(REST, t("v")),
        }
        match sym::choice(6) {
            0 => (),
            1 => c.set(P, t("w")),
            2 => c.set("@type", t(A)),
            3 => c.set("@reverse", o(&[(Q, o(&[("@id", t(A))]))])),
            4 => c.set("@included", o(&[("@id", t(A)), (Q, t("i"))])),
            _ => c.set("@graph", o(&[("@id", t(A)), (Q, t("g"))])),
        }
        c
    };
    both(&match sym::choice(12) {
        11 => {
            // Any two things beside each other.
            let mut n = o(&[x_()]);
            for i in [sym::conc(sym::choice(6)), sym::conc(sym::choice(6))] {
                match i {
                    0 => n.set(P, o(&[("@id", t(y))])),
                    1 => n.set("@type", t(y)),
                    2 => n.set(RT, t("v")),
                    3 => n.set("@reverse", o(&[(Q, o(&[("@id", t(y)), (P, t("r"))]))])),
                    4 => n.set("@included", a(&[o(&[("@id", t(y)), (Q, t("i"))]), o(&[(Q, t("j"))])])),
                    _ => n.set("@graph", a(&[o(&[("@id", t(y)), (Q, t("g"))]), o(&[(Q, t("h"))])])),
                }
            }
            n
        }
        0 => o(&[x_(), (P, o(&[("@id", t(y))]))]),
        1 => o(&[x_(), (P, t("v")), ("@type", t(y)), (RT, a(&[o(&[("@id", t(x))]), t("v"), o(&[(P, t("w"))])]))]),
        2 => o(&[x_(), (P, t("v")), ("@graph", o(&[("@id", t(y)), (P, t("w"))]))]),
        3 => o(&[x_(), ("@reverse", o(&[(P, o(&[("@id", t(y)), (P, t("w"))]))]))]),
        4 => o(&[x_(), (P, o(&[(Q, o(&[("@id", t(y))]))])), ("@included", o(&[("@id", t(y)), (P, t("w"))]))]),
        5 => a(&[o(&[x_(), (P, t("v"))]), o(&[("@id", t(y)), (P, t("v"))]), o(&[(P, t("v"))])]),
        6 => o(&[(P, a(&[o(&[(P, t("v"))]), o(&[("@id", t(x)), (Q, a(&[]))])])), ("@type", t(y))]),
        7 => o(&[x_(), ("@graph", a(&[o(&[("@id", t(y)), ("@graph", o(&[(P, t("v"))]))]), o(&[(P, t("w"))])]))]),
        8 => o(&[x_(), (P, cell())]),
        9 => o(&[("@reverse", o(&[(P, cell())])), (Q, t("v"))]),
        _ => cell(),
    })
}

/// Any implementation of the traits: things that make calls to the visitor.
#[derive(Clone)]
enum Call {
    Property(&'static str, Vec<Thing>),
    Reverse(&'static str, Vec<Thing>),
    Graph(Vec<Thing>),
    Include(Thing),
}
#[derive(Clone)]
enum Thing {
    /// A named node, or an anonymous one.
    Node(&'static str, Vec<Call>),
    Literal(&'static str, &'static str),
    /// A typed value, in its canonical form.
    Number(&'static str, &'static str),
}
use Call::*;
struct Things<'a>(&'a [Thing]);

impl<I: Interpretation> LinkedDataResource<I, ()> for Thing {
    fn interpretation(&self, _: &mut (), _: &mut I) -> ResourceInterpretation<'_, I, ()> {
        let term = match self {
            Thing::Node("", _) => return ResourceInterpretation::Uninterpreted(None),
            Thing::Node(x, _) if x.starts_with("_:") => rdf_types::Term::Id(Id::Blank(BlankIdBuf::new(x.to_string()).unwrap())),
            Thing::Node(x, _) => rdf_types::Term::Id(Id::Iri(Iri::new(*x).unwrap().to_owned())),
            Thing::Literal(v, t) => rdf_types::Term::Literal(RdfLiteral::Any(
                v.to_string(),
                match t.strip_prefix('@') {
                    Some(l) => LiteralType::LangString(langtag::LangTagBuf::new(l.to_string()).unwrap()),
                    None => LiteralType::Any(Iri::new(*t).unwrap().to_owned()),
                },
            )),
            Thing::Number(t, n) => {
                let t = xsd_types::Datatype::from_iri(Iri::new(&cat(&[XSD, t])).unwrap()).unwrap();
                rdf_types::Term::Literal(RdfLiteral::Xsd(t.parse(n).unwrap()))
            }
        };
        ResourceInterpretation::Uninterpreted(Some(CowRdfTerm::Owned(term)))
    }
}
impl<I: Interpretation> LinkedDataSubject<I, ()> for Thing {
    fn visit_subject<S: linked_data::SubjectVisitor<I, ()>>(&self, mut s: S) -> Result<S::Ok, S::Error> {
        if let Thing::Node(_, calls) = self {
            for c in calls {
                match c {
                    Property(p, x) => s.predicate(Iri::new(*p).unwrap(), &Things(x))?,
                    Reverse(p, x) => s.reverse_predicate(Iri::new(*p).unwrap(), &Things(x))?,
                    Graph(x) => s.graph(&Things(x))?,
                    Include(x) => s.include(x)?,
                }
            }
        }
        s.end()
    }
}
impl<I: Interpretation> LinkedDataPredicateObjects<I, ()> for Things<'_> {
    fn visit_objects<S: linked_data::PredicateObjectsVisitor<I, ()>>(&self, mut s: S) -> Result<S::Ok, S::Error> {
        for x in self.0 {
            s.object(x)?
        }
        s.end()
    }
}
impl<I: Interpretation> LinkedDataGraph<I, ()> for Things<'_> {
    fn visit_graph<S: linked_data::GraphVisitor<I, ()>>(&self, mut s: S) -> Result<S::Ok, S::Error> {
        for x in self.0 {
            s.subject(x)?
        }
        s.end()
    }
}
struct NamedGraph<'a>(Thing, &'a [Thing]);
impl<I: Interpretation> LinkedDataResource<I, ()> for NamedGraph<'_> {
    fn interpretation(&self, v: &mut (), i: &mut I) -> ResourceInterpretation<'_, I, ()> {
        self.0.interpretation(v, i)
    }
}
impl<I: Interpretation> LinkedDataGraph<I, ()> for NamedGraph<'_> {
    fn visit_graph<S: linked_data::GraphVisitor<I, ()>>(&self, s: S) -> Result<S::Ok, S::Error> {
        Things(self.1).visit_graph(s)
    }
}
struct Data(Vec<(&'static str, Vec<Thing>)>);
impl<I: Interpretation> LinkedData<I, ()> for Data {
    fn visit<S: linked_data::Visitor<I, ()>>(&self, mut s: S) -> Result<S::Ok, S::Error> {
        for (g, x) in &self.0 {
            if *g == "@default" {
                s.default_graph(&Things(x))?
            } else {
                s.named_graph(&NamedGraph(Thing::Node(g, vec![]), x))?
            }
        }
        s.end()
    }
}
/// What the calls say.
struct Said {
    out: Vec<Quad>,
    count: usize,
}
impl Said {
    fn push(&mut self, s: &str, p: &str, o: Term, g: &str) {
        let q = Quad { s: s.to_string(), p: p.to_string(), o, g: g.to_string() };
        if !self.out.contains(&q) {
            self.out.push(q)
        }
    }
    fn thing(&mut self, x: &Thing, g: &str) -> Term {
        let (name, calls) = match x {
            Thing::Literal(v, t) => return Term::Lit(v.to_string(), t.to_string()),
            Thing::Number(t, n) => return Term::Lit(n.to_string(), cat(&[XSD, t])),
            Thing::Node(x, calls) => (x, calls),
        };
        self.count += 1;
        let s = if name.is_empty() { cat(&["_:s", &self.count.to_string()]) } else { name.to_string() };
        for c in calls {
            match c {
                Property(p, x) => {
                    for x in x {
                        let o = self.thing(x, g);
                        self.push(&s, p, o, g)
                    }
                }
                Reverse(p, x) => {
                    for x in x {
                        if let Term::Node(n) = self.thing(x, g) {
                            self.push(&n, p, Term::Node(s.clone()), g)
                        }
                    }
                }
                Graph(x) => {
                    for x in x {
                        self.thing(x, &s);
                    }
                }
                Include(x) => {
                    self.thing(x, g);
                }
            }
        }
        Term::Node(s)
    }
}
fn thing(depth: usize) -> Thing {
    let x_string = "http://www.w3.org/2001/XMLSchema#string";
    if depth == 0 {
        return match sym::choice(7) {
            0 => Thing::Literal("v", x_string),
            1 => Thing::Literal("v", "@en"),
            2 => Thing::Literal("5", "http://e.x/T"),
            3 => Thing::Number("int", "5"),
            4 => Thing::Node(A, vec![]),
            5 => Thing::Node(NIL, vec![]),
            _ => Thing::Node("", vec![]),
        };
    }
    let node = pick(&[A, ""]);
    Thing::Node(node, vec![call(depth)])
}
fn resource(depth: usize) -> Thing {
    if depth == 0 {
        return Thing::Node(pick(&["_:r", NIL]), vec![]);
    }
    thing(depth)
}
fn call(depth: usize) -> Call {
    match sym::choice(7) {
        0 => Property(P, vec![thing(depth - 1)]),
        1 => Property(pick(&[RT, FIRST, REST]), vec![thing(depth - 1)]),
        2 => Property(FIRST, vec![thing(0), thing(0)]),
        3 => Reverse(P, vec![resource(depth - 1)]),
        4 => Graph(vec![resource(depth - 1)]),
        5 => Include(resource(depth - 1)),
        _ => Property(P, vec![Thing::Node("_:y", vec![]), Thing::Literal("w", "http://e.x/T")]),
    }
}
#[no_mangle]
pub extern "C" fn h_linked_calls() {
    let node = pick(&[A, "_:x", ""]);
    let first = call(2);
    let mut calls = vec![first];
    match if node.is_empty() { 0 } else { sym::choice(4) } {
        0 => (),
        1 => calls.push(Property(P, vec![Thing::Literal("again", "http://e.x/T")])),
        2 => calls.push(Reverse(P, vec![Thing::Node("_:again", vec![])])),
        _ => calls.push(Graph(vec![Thing::Node("_:again", vec![Property(P, vec![Thing::Number("integer", "1")])])])),
    }
    let g = sym::choice(5);
    let x = match g {
        0 | 1 => vec![Thing::Node(node, calls)],
        2 => vec![Thing::Node(A, vec![Property(P, vec![Thing::Node(node, calls)])])],
        3 => vec![Thing::Node(node, calls), Thing::Node("_:x", vec![Property(P, vec![Thing::Literal("o", "@en")])])],
        _ => vec![Thing::Node("", vec![Property(FIRST, vec![Thing::Node(node, calls)]), Property(REST, vec![Thing::Node(NIL, vec![])])])],
    };
    let mut data = Data(vec![(if g == 1 { "http://e.x/g" } else { "@default" }, x)]);
    if g == 3 {
        data.0.push(("_:x", vec![Thing::Node("_:x", vec![Property(Q, vec![Thing::Node(A, vec![])])])]))
    }
    let mut said = Said { out: vec![], count: 0 };
    for (g, x) in &data.0 {
        for x in x {
            said.thing(x, g);
        }
    }
    match ser::serialize(&data) {
        Ok(d) => {
            sym::cover("written");
            same(&said.out, &written(d), "what is written is not what was visited")
        }
        Err(_) => sym::fail("refuses to write"),
    }
}

/// Typed values, wherever values are visited.
#[no_mangle]
pub extern "C" fn h_linked_typed() {
    let v = match sym::choice(3) {
        0 => pick(&[
            Thing::Number("integer", "5"), Thing::Number("integer", "-9223372036854775808"), Thing::Number("integer", "9223372036854775807"),
           
            Thing::Number("long", "-5"), Thing::Number("int", "0"), Thing::Number("short", "-5"), Thing::Number("byte", "5"),
            Thing::Number("nonNegativeInteger", "5"), Thing::Number("unsignedLong", "18446744073709551615"),
            Thing::Number("unsignedLong", "7"), Thing::Number("unsignedInt", "4294967295"), Thing::Number("unsignedShort", "5"),
            Thing::Number("unsignedByte", "255"), Thing::Number("positiveInteger", "5"),
        ]),
        1 => pick(&[
            Thing::Number("boolean", "true"), Thing::Number("boolean", "false"), Thing::Number("string", "v"), Thing::Number("string", ""),
            Thing::Number("anyURI", "http://e.x/u"), Thing::Number("date", "2001-02-03"),
        ]),
        _ => pick(&[
            Thing::Literal("v", "http://www.w3.org/2001/XMLSchema#string"), Thing::Literal("5", "http://www.w3.org/2001/XMLSchema#integer"),
            Thing::Literal("true", "http://www.w3.org/2001/XMLSchema#boolean"), Thing::Literal("", "@en-US"), Thing::Literal("v", "@de"),
            Thing::Literal("x", "http://e.x/T"), Thing::Literal("{}", "http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON"),
        ]),
    };
    let list = |x: Vec<Thing>| x.into_iter().rev().fold(Thing::Node(NIL, vec![]), |rest, x| Thing::Node("", vec![Property(FIRST, vec![x]), Property(REST, vec![rest])]));
    let x = match sym::choice(8) {
        0 => vec![Thing::Node(A, vec![Property(P, vec![v])])],
        1 => vec![Thing::Node(A, vec![Property(P, vec![Thing::Node("_:x", vec![]), v.clone(), Thing::Literal("w", "@en")]), Property(Q, vec![v])])],
        2 => vec![Thing::Node(A, vec![Property(P, vec![list(vec![v.clone(), Thing::Node("_:x", vec![]), v])])])],
        3 => vec![Thing::Node(A, vec![Graph(vec![Thing::Node("_:x", vec![Property(P, vec![v])])])])],
        4 => vec![Thing::Node(A, vec![Include(Thing::Node("_:x", vec![Property(P, vec![v])]))])],
        5 => vec![Thing::Node(A, vec![Reverse(Q, vec![Thing::Node("_:x", vec![Property(P, vec![v])])])])],
        6 => vec![Thing::Node(A, vec![Property(P, vec![Thing::Node("", vec![Property(Q, vec![v])])])])],
        // A value that is not of any node says nothing.
        _ => vec![v, Thing::Node(A, vec![Property(P, vec![Thing::Node("_:x", vec![])])])],
    };
    let data = Data(vec![(pick(&["@default", "http://e.x/g"]), x)]);
    let mut said = Said { out: vec![], count: 0 };
    for (g, x) in &data.0 {
        for x in x {
            said.thing(x, g);
        }
    }
    match ser::serialize(&data) {
        Ok(d) => {
            sym::cover("written");
            same(&said.out, &written(d), "what is written is not what was visited")
        }
        Err(_) => sym::fail("refuses to write"),
    }
}
