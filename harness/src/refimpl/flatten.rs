//! Node map generation and flattening, and equality up to blank node labels.
use super::ctx::is_blank;
use super::json::*;

pub struct Conflict;
type R = Result<(), Conflict>;

#[derive(Clone)]
enum Subject {
    None,
    Id(String),
    /// The referenced node of a reverse property.
    Reverse(J),
}

pub struct Maps {
    /// Graph name to nodes; the default graph comes first.
    pub graphs: Vec<(String, Vec<J>)>,
    issued: Vec<(String, String)>,
    count: usize,
}

fn id_ref(id: &str) -> J {
    J::Obj(vec![("@id".to_string(), s(id))])
}
fn push_new(v: &mut Vec<J>, x: J) {
    if !v.iter().any(|y| json_eq(y, &x)) {
        v.push(x)
    }
}

impl Maps {
    pub fn new() -> Maps {
        Maps { graphs: vec![("@default".to_string(), vec![])], issued: vec![], count: 0 }
    }
    fn fresh(&mut self) -> String {
        let mut x = "_:b".to_string();
        x.push_str(&self.count.to_string());
        self.count += 1;
        x
    }
    fn relabel(&mut self, x: &str) -> String {
        if !is_blank(x) {
            return x.to_string();
        }
        if let Some(e) = self.issued.iter().find(|e| e.0 == x) {
            return e.1.clone();
        }
        let n = self.fresh();
        self.issued.push((x.to_string(), n.clone()));
        n
    }
    fn graph(&mut self, g: &str) -> &mut Vec<J> {
        let i = match self.graphs.iter().position(|e| e.0 == g) {
            Some(i) => i,
            None => {
                self.graphs.push((g.to_string(), vec![]));
                self.graphs.len() - 1
            }
        };
        &mut self.graphs[i].1
    }
    fn node(&mut self, g: &str, id: &str) -> &mut J {
        let g = self.graph(g);
        let i = match g.iter().position(|n| n.get("@id").and_then(J::str) == Some(id)) {
            Some(i) => i,
            None => {
                g.push(id_ref(id));
                g.len() - 1
            }
        };
        &mut g[i]
    }
    fn values<'a>(node: &'a mut J, p: &str) -> &'a mut Vec<J> {
        if !node.has(p) {
            node.set(p, J::Arr(vec![]))
        }
        match node.get_mut(p) {
            Some(J::Arr(a)) => a,
            _ => unreachable!(),
        }
    }
    pub fn generate(&mut self, el: &J) -> R {
        self.add(el, "@default", &Subject::None, None, &mut None)
    }
    fn add(&mut self, el: &J, g: &str, subject: &Subject, prop: Option<&str>, list: &mut Option<Vec<J>>) -> R {
        if let J::Arr(a) = el {
            for x in a {
                self.add(x, g, subject, prop, list)?
            }
            return Ok(());
        }
        if el.has("@value") || el.has("@list") {
            let (x, dedup) = if let Some(items) = el.get("@list") {
                let mut r = Some(vec![]);
                self.add(items, g, subject, prop, &mut r)?;
                (J::Obj(vec![("@list".to_string(), J::Arr(r.unwrap()))]), false)
            } else {
                (el.clone(), true)
            };
            match list {
                Some(l) => l.push(x),
                None => {
                    if let (Subject::Id(i), Some(p)) = (subject, prop) {
                        let v = Self::values(self.node(g, i), p);
                        if dedup {
                            push_new(v, x)
                        } else {
                            v.push(x)
                        }
                    }
                }
            }
            return Ok(());
        }
        let id = match el.get("@id").and_then(J::str) {
            Some(i) => self.relabel(i),
            None => self.fresh(),
        };
        let types: Vec<String> = match el.get("@type") {
            Some(t) => t.as_items().iter().map(|t| self.relabel(t.str().unwrap_or(""))).collect(),
            None => vec![],
        };
        self.node(g, &id);
        match (subject, prop) {
            (Subject::Reverse(r), Some(p)) => push_new(Self::values(self.node(g, &id), p), r.clone()),
            (Subject::Id(i), Some(p)) => match list {
                Some(l) => l.push(id_ref(&id)),
                None => push_new(Self::values(self.node(g, i), p), id_ref(&id)),
            },
            _ => (),
        }
        for t in types {
            push_new(Self::values(self.node(g, &id), "@type"), s(&t))
        }
        if let Some(x) = el.get("@index") {
            let n = self.node(g, &id);
            match n.get("@index") {
                Some(y) if y != x => return Err(Conflict),
                _ => n.set("@index", x.clone()),
            }
        }
        if let Some(r) = el.get("@reverse") {
            for (p, v) in r.obj().unwrap() {
                // The specification forgets to relabel here.
                let p = self.relabel(p);
                self.add(v, g, &Subject::Reverse(id_ref(&id)), Some(&p), &mut None)?
            }
        }
        if let Some(x) = el.get("@graph") {
            self.graph(&id);
            self.add(x, &id, &Subject::None, None, &mut None)?
        }
        if let Some(x) = el.get("@included") {
            self.add(x, g, &Subject::None, None, &mut None)?
        }
        for k in el.sorted_keys() {
            if k.starts_with('@') {
                continue;
            }
            let p = self.relabel(&k);
            Self::values(self.node(g, &id), &p);
            self.add(el.get(&k).unwrap(), g, &Subject::Id(id.clone()), Some(&p), &mut None)?
        }
        Ok(())
    }
}

pub fn flatten(expanded: &J) -> Result<J, Conflict> {
    let mut m = Maps::new();
    m.generate(expanded)?;
    let named: Vec<(String, Vec<J>)> = m.graphs.drain(1..).collect();
    let more = |n: &J| n.obj().unwrap().len() > 1;
    for (name, nodes) in named {
        let nodes = nodes.into_iter().filter(more).collect();
        m.node("@default", &name).set("@graph", J::Arr(nodes));
    }
    let nodes = m.graphs.remove(0).1;
    Ok(J::Arr(nodes.into_iter().filter(more).collect()))
}

/// Are the entries of `@graph` and the top level sorted by identifier?
pub fn sorted(j: &J) -> bool {
    let a = match j {
        J::Arr(a) => a,
        _ => return true,
    };
    a.windows(2).all(|w| w[0].get("@id").and_then(J::str) <= w[1].get("@id").and_then(J::str))
        && a.iter().all(|n| n.get("@graph").is_none_or(sorted))
}

// Blank node labels.

fn occurrences(j: &J, path: &str, out: &mut Vec<(String, String)>) {
    match j {
        J::Arr(a) => {
            for x in a {
                match x {
                    J::Str(v) if path.ends_with("@type") => {
                        if is_blank(v) {
                            out.push((v.clone(), path.to_string()))
                        }
                    }
                    x => occurrences(x, path, out),
                }
            }
        }
        J::Obj(o) => {
            let id = match j.get("@id") {
                Some(J::Str(v)) if is_blank(v) => {
                    let mut c = path.to_string();
                    for k in j.sorted_keys() {
                        c.push(' ');
                        if !is_blank(&k) {
                            c.push_str(&k)
                        }
                    }
                    out.push((v.clone(), c));
                    "_:"
                }
                Some(J::Str(v)) => v,
                _ => "",
            };
            for (k, v) in o {
                if k == "@value" || k == "@index" {
                    continue;
                }
                let mut p = path.to_string();
                p.push_str(id);
                p.push('/');
                if is_blank(k) {
                    out.push((k.clone(), p.clone()))
                } else {
                    p.push_str(k)
                }
                occurrences(v, &p, out)
            }
        }
        _ => (),
    }
}
/// Blank node labels with a description that does not depend on labels.
fn labels(j: &J) -> Vec<(String, Vec<String>)> {
    let mut occ = vec![];
    occurrences(j, "", &mut occ);
    let mut r: Vec<(String, Vec<String>)> = vec![];
    for (l, p) in occ {
        match r.iter_mut().find(|e| e.0 == l) {
            Some(e) => e.1.push(p),
            None => r.push((l, vec![p])),
        }
    }
    for e in &mut r {
        sort_strings(&mut e.1)
    }
    r
}
pub fn rename(j: &J, m: &[(String, String)], ty: bool) -> J {
    let f = |x: &str| match m.iter().find(|e| e.0 == x) {
        Some(e) => e.1.clone(),
        None => x.to_string(),
    };
    match j {
        J::Arr(a) => J::Arr(
            a.iter()
                .map(|x| match x {
                    J::Str(v) if ty => J::Str(f(v)),
                    x => rename(x, m, false),
                })
                .collect(),
        ),
        J::Obj(o) => J::Obj(
            o.iter()
                .map(|(k, v)| {
                    let w = match (k.as_str(), v) {
                        ("@id", J::Str(i)) => J::Str(f(i)),
                        ("@value", v) => v.clone(),
                        (k, v) => rename(v, m, k == "@type"),
                    };
                    (f(k), w)
                })
                .collect(),
        ),
        x => x.clone(),
    }
}
/// Are both documents equal up to a bijection between blank node labels?
pub fn iso_eq(want: &J, got: &J) -> bool {
    let (w, g) = (labels(want), labels(got));
    if w.len() != g.len() {
        return false;
    }
    let mut used = vec![false; w.len()];
    let mut m = vec![];
    assign(want, got, &w, &g, &mut used, &mut m)
}
fn assign(
    want: &J,
    got: &J,
    w: &[(String, Vec<String>)],
    g: &[(String, Vec<String>)],
    used: &mut [bool],
    m: &mut Vec<(String, String)>,
) -> bool {
    if m.len() == g.len() {
        return ld_eq(want, &rename(got, m, false), false);
    }
    let k = m.len();
    for i in 0..w.len() {
        if !used[i] && w[i].1 == g[k].1 {
            used[i] = true;
            m.push((g[k].0.clone(), w[i].0.clone()));
            if assign(want, got, w, g, used, m) {
                return true;
            }
            m.pop();
            used[i] = false;
        }
    }
    false
}
