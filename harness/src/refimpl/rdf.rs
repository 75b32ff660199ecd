//! Conversion of flattened documents to RDF, and equality of datasets.
use super::ctx::{is_blank, is_iri};
use super::flatten::{Conflict, Maps};
use super::json::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Quad {
    pub s: String,
    pub p: String,
    pub o: Term,
    pub g: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Term {
    Node(String),
    /// Value, and datatype or `@` and language.
    Lit(String, String),
}
#[derive(Clone, Copy, PartialEq)]
pub enum Direction {
    Drop,
    I18n,
    Compound,
}
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

pub fn cat(x: &[&str]) -> String {
    let mut r = String::new();
    for s in x {
        r.push_str(s)
    }
    r
}
/// Lexical forms of the numbers the harnesses use: JSON, xsd:integer when there is
/// no fractional part and the value is below 10^21, xsd:double, canonical JSON.
pub const NUMBERS: &[(&str, Option<&str>, &str, &str)] = &[
    ("0", Some("0"), "0.0E0", "0"),
    ("-0", Some("0"), "-0.0E0", "0"),
    ("-0.0", Some("0"), "-0.0E0", "0"),
    ("0e9", Some("0"), "0.0E0", "0"),
    ("5", Some("5"), "5.0E0", "5"),
    ("-7", Some("-7"), "-7.0E0", "-7"),
    ("1.0", Some("1"), "1.0E0", "1"),
    ("1e2", Some("100"), "1.0E2", "100"),
    ("5.5", None, "5.5E0", "5.5"),
    ("-0.25", None, "-2.5E-1", "-0.25"),
    ("1e-7", None, "1.0E-7", "1e-7"),
    ("123456.75", None, "1.2345675E5", "123456.75"),
    ("1e21", None, "1.0E21", "1e+21"),
    ("1.5e30", None, "1.5E30", "1.5e+30"),
    ("10000000000000000000", Some("10000000000000000000"), "1.0E19", "10000000000000000000"),
    ("100000000000000000000", Some("100000000000000000000"), "1.0E20", "100000000000000000000"),
    ("-9223372036854775808", Some("-9223372036854775808"), "-9.223372036854776E18", "-9223372036854776000"),
];
fn number(n: &str) -> (Option<String>, String, String) {
    for e in NUMBERS {
        if e.0 == n || e.3 == n {
            return (e.1.map(str::to_string), e.2.to_string(), e.3.to_string());
        }
    }
    // Canonical doubles that the table does not have as they are.
    for (c, i, j) in [("5.5E0", None, "5.5"), ("1.0E0", Some("1"), "1"), ("1.0E21", None, "1e+21")] {
        if c == n {
            return (i.map(str::to_string), c.to_string(), j.to_string());
        }
    }
    (Some(n.to_string()), cat(&[n, ".0E0"]), n.to_string())
}
fn canonical(j: &J) -> String {
    match j {
        J::Num(n) => number(n).2,
        J::Arr(a) => {
            let mut r = "[".to_string();
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    r.push(',')
                }
                r.push_str(&canonical(x))
            }
            r.push(']');
            r
        }
        J::Obj(_) => {
            let mut r = "{".to_string();
            for (i, k) in j.sorted_keys().iter().enumerate() {
                if i > 0 {
                    r.push(',')
                }
                r.push('"');
                r.push_str(k);
                r.push_str("\":");
                r.push_str(&canonical(j.get(k).unwrap()))
            }
            r.push('}');
            r
        }
        x => x.print(),
    }
}
fn lower(x: &str) -> String {
    x.bytes().map(|b| b.to_ascii_lowercase() as char).collect()
}
/// A subset that suffices for the tags the harnesses use.
fn well_formed_language(l: &str) -> bool {
    let mut first = true;
    for x in l.split('-') {
        if x.is_empty() || x.len() > 8 || !x.bytes().all(|b| b.is_ascii_alphanumeric()) {
            return false;
        }
        if first && (x.len() < 2 || !x.bytes().all(|b| b.is_ascii_alphabetic())) {
            return false;
        }
        first = false
    }
    true
}
fn well_formed(x: &str) -> bool {
    is_blank(x) || is_iri(x)
}

pub struct Ser {
    pub out: Vec<Quad>,
    pub direction: Direction,
    pub generalized: bool,
    count: usize,
}
impl Ser {
    pub fn new(direction: Direction, generalized: bool) -> Ser {
        Ser { out: vec![], direction, generalized, count: 0 }
    }
    fn fresh(&mut self) -> String {
        self.count += 1;
        cat(&["_:l", &self.count.to_string()])
    }
    fn emit(&mut self, s: &str, p: &str, o: Term, g: &str) {
        let q = Quad { s: s.to_string(), p: p.to_string(), o, g: g.to_string() };
        if !self.out.contains(&q) {
            self.out.push(q)
        }
    }
    pub fn document(&mut self, expanded: &J) -> Result<(), Conflict> {
        let mut m = Maps::new();
        m.generate(expanded)?;
        for (g, nodes) in &m.graphs {
            if g != "@default" && !well_formed(g) {
                continue;
            }
            for n in nodes {
                let subject = n.get("@id").unwrap().str().unwrap();
                if !well_formed(subject) {
                    continue;
                }
                for (p, v) in n.obj().unwrap() {
                    if p == "@type" {
                        for t in v.as_items() {
                            let t = t.str().unwrap();
                            if well_formed(t) {
                                self.emit(subject, &cat(&[RDF, "type"]), Term::Node(t.to_string()), g)
                            }
                        }
                    } else if !p.starts_with('@') && well_formed(p) && (self.generalized || !is_blank(p)) {
                        for x in v.as_items() {
                            if let Some(o) = self.object(x, g) {
                                self.emit(subject, p, o, g)
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn object(&mut self, x: &J, g: &str) -> Option<Term> {
        if let Some(l) = x.get("@list") {
            return Some(Term::Node(self.list(l.arr().unwrap(), g)));
        }
        let v = match x.get("@value") {
            Some(v) => v,
            None => {
                let id = x.get("@id")?.str()?;
                return well_formed(id).then(|| Term::Node(id.to_string()));
            }
        };
        let ty = x.get("@type").and_then(J::str);
        if let Some(t) = ty {
            if t != "@json" && !is_iri(t) {
                return None;
            }
        }
        let lang = x.get("@language").and_then(J::str);
        if let Some(l) = lang {
            if !well_formed_language(l) {
                return None;
            }
        }
        let or = |d: &str| match ty {
            Some(t) => t.to_string(),
            None => cat(&[XSD, d]),
        };
        if ty == Some("@json") {
            return Some(Term::Lit(canonical(v), cat(&[RDF, "JSON"])));
        }
        let v = match v {
            J::Bool(b) => return Some(Term::Lit(b.to_string(), or("boolean"))),
            J::Num(n) => {
                let (int, double, _) = number(n);
                return Some(match int {
                    Some(i) if ty != Some(&cat(&[XSD, "double"])) => Term::Lit(i, or("integer")),
                    _ => Term::Lit(double, or("double")),
                });
            }
            v => v.str()?,
        };
        if let (Some(d), true) = (x.get("@direction").and_then(J::str), self.direction != Direction::Drop) {
            let l = lower(lang.unwrap_or(""));
            if self.direction == Direction::I18n {
                return Some(Term::Lit(v.to_string(), cat(&["https://www.w3.org/ns/i18n#", &l, "_", d])));
            }
            let b = self.fresh();
            self.emit(&b, &cat(&[RDF, "value"]), Term::Lit(v.to_string(), cat(&[XSD, "string"])), g);
            if lang.is_some() {
                self.emit(&b, &cat(&[RDF, "language"]), Term::Lit(l, cat(&[XSD, "string"])), g);
            }
            self.emit(&b, &cat(&[RDF, "direction"]), Term::Lit(d.to_string(), cat(&[XSD, "string"])), g);
            return Some(Term::Node(b));
        }
        Some(Term::Lit(v.to_string(), match lang {
            Some(l) => cat(&["@", l]),
            None => or("string"),
        }))
    }
    fn list(&mut self, items: &[J], g: &str) -> String {
        let nil = cat(&[RDF, "nil"]);
        let cells: Vec<String> = items.iter().map(|_| self.fresh()).collect();
        for (i, x) in items.iter().enumerate() {
            if let Some(o) = self.object(x, g) {
                self.emit(&cells[i], &cat(&[RDF, "first"]), o, g)
            }
            let rest = cells.get(i + 1).unwrap_or(&nil).clone();
            self.emit(&cells[i], &cat(&[RDF, "rest"]), Term::Node(rest), g)
        }
        cells.first().unwrap_or(&nil).clone()
    }
}

// Isomorphism of datasets.

fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x100000001b3).rotate_left(17)
}
fn hash(x: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in x.bytes() {
        h = mix(h, b as u64)
    }
    h
}
/// Terms as numbers: blank nodes are below `blanks`, the others above.
struct Numbered {
    blanks: usize,
    quads: Vec<[usize; 4]>,
}
const GROUND: usize = 1 << 20;
fn numbered<'a>(d: &'a [Quad], ground: &mut Vec<(&'a str, Option<&'a str>)>) -> Numbered {
    let mut blanks: Vec<&'a str> = vec![];
    let mut node = |x: &'a str, ground: &mut Vec<(&'a str, Option<&'a str>)>| {
        if is_blank(x) {
            index(&mut blanks, x)
        } else {
            GROUND + index(ground, (x, None))
        }
    };
    let quads = d
        .iter()
        .map(|q| {
            let o = match &q.o {
                Term::Node(n) => node(n, ground),
                Term::Lit(v, t) => GROUND + index(ground, (v, Some(t))),
            };
            [node(&q.s, ground), node(&q.p, ground), o, node(&q.g, ground)]
        })
        .collect();
    Numbered { blanks: blanks.len(), quads }
}
fn index<X: PartialEq>(v: &mut Vec<X>, x: X) -> usize {
    match v.iter().position(|y| *y == x) {
        Some(i) => i,
        None => {
            v.push(x);
            v.len() - 1
        }
    }
}
fn colors(d: &Numbered) -> Vec<u64> {
    let mut c = vec![1; d.blanks];
    for _ in 0..d.blanks.min(5) {
        let mut sum = vec![0u64; d.blanks];
        for q in &d.quads {
            for (i, own) in q.iter().enumerate() {
                if *own < GROUND && !q[..i].contains(own) {
                    let mut h = 0;
                    for x in q {
                        h = mix(h, if x == own { 7 } else if *x < GROUND { c[*x] } else { *x as u64 });
                    }
                    // Commutative, so that the order of quads is immaterial.
                    sum[*own] = sum[*own].wrapping_add(h)
                }
            }
        }
        for (c, h) in c.iter_mut().zip(sum) {
            *c = mix(*c, h)
        }
    }
    c
}
/// Are both sets of quads equal up to a bijection between blank node labels?
pub fn iso_eq(want: &[Quad], got: &[Quad]) -> bool {
    if want.len() != got.len() {
        return false;
    }
    let mut ground = vec![];
    let (want, got) = (numbered(want, &mut ground), numbered(got, &mut ground));
    if want.blanks != got.blanks {
        return false;
    }
    let (w, g) = (colors(&want), colors(&got));
    assign(&want, &got, &w, &g, &mut vec![false; want.blanks], &mut vec![])
}
fn assign(want: &Numbered, got: &Numbered, w: &[u64], g: &[u64], used: &mut Vec<bool>, m: &mut Vec<usize>) -> bool {
    if m.len() == got.blanks {
        return got.quads.iter().all(|q| want.quads.contains(&q.map(|x| if x < GROUND { m[x] } else { x })));
    }
    for i in 0..want.blanks {
        if !used[i] && w[i] == g[m.len()] {
            used[i] = true;
            m.push(i);
            if assign(want, got, w, g, used, m) {
                return true;
            }
            m.pop();
            used[i] = false;
        }
    }
    false
}
