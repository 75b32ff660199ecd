//! JSON trees.
use json_ld::syntax::Value;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
pub fn s(x: &str) -> J {
    J::Str(x.to_string())
}
impl J {
    pub fn from_value(v: &Value) -> J {
        match v {
            Value::Null => J::Null,
            Value::Boolean(b) => J::Bool(*b),
            Value::Number(n) => J::Num(n.as_str().to_string()),
            Value::String(s) => J::Str(s.as_str().to_string()),
            Value::Array(a) => J::Arr(a.iter().map(J::from_value).collect()),
            Value::Object(o) => J::Obj(
                o.iter()
                    .map(|e| (e.key.as_str().to_string(), J::from_value(&e.value)))
                    .collect(),
            ),
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
        match self {
            J::Obj(o) => o.iter_mut().find(|e| e.0 == k).map(|e| &mut e.1),
            _ => None,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
    pub fn obj(&self) -> Option<&Vec<(String, J)>> {
        match self {
            J::Obj(o) => Some(o),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&Vec<J>> {
        match self {
            J::Arr(o) => Some(o),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(o) => Some(o),
            _ => None,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, J::Bool(_) | J::Num(_) | J::Str(_))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn is_arr(&self) -> bool {
        matches!(self, J::Arr(_))
    }
    pub fn is_obj(&self) -> bool {
        matches!(self, J::Obj(_))
    }
    /// Replaces or adds an entry.
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            for e in o.iter_mut() {
                if e.0 == k {
                    e.1 = v;
                    return;
                }
            }
            o.push((k.to_string(), v));
        }
    }
    pub fn remove(&mut self, k: &str) -> Option<J> {
        if let J::Obj(o) = self {
            if let Some(i) = o.iter().position(|e| e.0 == k) {
                return Some(o.remove(i).1);
            }
        }
        None
    }
    pub fn into_arr(self) -> Vec<J> {
        match self {
            J::Arr(a) => a,
            x => vec![x],
        }
    }
    pub fn as_items(&self) -> Vec<&J> {
        match self {
            J::Arr(a) => a.iter().collect(),
            x => vec![x],
        }
    }
    /// The "add value" operation of the specification.
    pub fn add_value(&mut self, k: &str, v: J, as_array: bool) {
        if as_array && !self.has(k) {
            self.set(k, J::Arr(vec![]));
        } else if as_array && !self.get(k).unwrap().is_arr() {
            let old = self.remove(k).unwrap();
            self.set(k, J::Arr(vec![old]));
        }
        if let J::Arr(a) = v {
            for x in a {
                self.add_value(k, x, as_array);
            }
            return;
        }
        match self.remove(k) {
            None => self.set(k, v),
            Some(old) => {
                let mut a = old.into_arr();
                a.push(v);
                self.set(k, J::Arr(a));
            }
        }
    }
    /// Keys, sorted by code point (UTF-8 order is code point order).
    pub fn sorted_keys(&self) -> Vec<String> {
        let mut v: Vec<String> = match self {
            J::Obj(o) => o.iter().map(|e| e.0.clone()).collect(),
            _ => vec![],
        };
        sort_strings(&mut v);
        v
    }
    pub fn print(&self) -> String {
        let mut o = String::new();
        self.print_to(&mut o);
        o
    }
    fn print_to(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(true) => o.push_str("true"),
            J::Bool(false) => o.push_str("false"),
            J::Num(n) => o.push_str(n),
            J::Str(s) => {
                o.push('"');
                o.push_str(s);
                o.push('"')
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.print_to(o)
                }
                o.push(']')
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    o.push('"');
                    o.push_str(k);
                    o.push_str("\":");
                    x.print_to(o)
                }
                o.push('}')
            }
        }
    }
}
/// Insertion sort: few comparisons on the short lists used here.
pub fn sort_strings(v: &mut [String]) {
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && v[j] < v[j - 1] {
            v.swap(j, j - 1);
            j -= 1;
        }
    }
}
/// Equality of JSON trees: objects are unordered, arrays are ordered.
pub fn json_eq(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Arr(x), J::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| json_eq(a, b)),
        (J::Obj(x), J::Obj(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| match b.get(k) {
                    Some(w) => json_eq(v, w),
                    None => false,
                })
        }
        _ => a == b,
    }
}
/// Equality of JSON-LD documents as the test suite defines it: objects are
/// unordered, arrays are unordered except as the value of `@list`, and
/// `@value` payloads of JSON literals are compared as JSON.
pub fn ld_eq(a: &J, b: &J, ordered: bool) -> bool {
    match (a, b) {
        (J::Arr(x), J::Arr(y)) => {
            if x.len() != y.len() {
                return false;
            }
            if x.iter().zip(y).all(|(a, b)| ld_eq(a, b, false)) {
                return true;
            }
            if ordered {
                return false;
            }
            let mut used = vec![false; y.len()];
            'l: for v in x {
                for (j, w) in y.iter().enumerate() {
                    if !used[j] && ld_eq(v, w, false) {
                        used[j] = true;
                        continue 'l;
                    }
                }
                return false;
            }
            true
        }
        (J::Obj(x), J::Obj(y)) => {
            x.len() == y.len()
                && x.iter().all(|(k, v)| match b.get(k) {
                    Some(w) => {
                        if k == "@value" {
                            json_eq(v, w)
                        } else {
                            ld_eq(v, w, k == "@list")
                        }
                    }
                    None => false,
                })
        }
        _ => a == b,
    }
}

/// Drops empty `@type`, `@included` and `@reverse` entries and null
/// identifiers, which say nothing.
pub fn norm(j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(norm),
        J::Obj(o) => {
            o.retain(|(k, v)| {
                !((k == "@type" || k == "@included") && *v == J::Arr(vec![])
                    || k == "@id" && v.is_null()
                    || k == "@reverse" && *v == J::Obj(vec![]))
            });
            for (k, v) in o {
                if k != "@value" {
                    norm(v)
                }
                // Sets of nodes.
                if let ("@included" | "@graph", v) = (k.as_str(), v) {
                    dedup(v)
                }
            }
        }
        _ => (),
    }
}
/// Removes duplicates from a set.
pub fn dedup(j: &mut J) {
    if let J::Arr(a) = j {
        let mut i = 0;
        while i < a.len() {
            if a[..i].iter().any(|x| ld_eq(x, &a[i], false)) {
                a.remove(i);
            } else {
                i += 1
            }
        }
    }
}
