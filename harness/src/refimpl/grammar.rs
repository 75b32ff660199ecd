//! The grammar of local contexts (JSON-LD 1.1, section 9.15), as far as the
//! types of values go.
use super::ctx::{dir, is_keyword};
use super::json::*;
use iref::IriRef;

/// Is a local context anywhere in the document ill-formed?
pub fn some_bad(d: &J) -> bool {
    match d {
        J::Arr(v) => v.iter().any(some_bad),
        J::Obj(v) => v.iter().any(|(k, v)| if k == "@context" { !context(v) } else { some_bad(v) }),
        _ => false,
    }
}

fn iri_ref(v: &J) -> bool {
    v.str().map_or(false, |s| IriRef::new(s).is_ok())
}
fn boolean(v: &J) -> bool {
    matches!(v, J::Bool(_))
}
fn string(v: &J) -> bool {
    v.str().is_some()
}

pub fn context(c: &J) -> bool {
    match c {
        J::Arr(v) => v.iter().all(|c| !c.is_arr() && context(c)),
        J::Null => true,
        J::Str(_) => iri_ref(c),
        J::Obj(o) => o.iter().all(|(k, v)| match k.as_str() {
            "@base" => v.is_null() || iri_ref(v),
            "@vocab" | "@language" => v.is_null() || string(v),
            "@direction" => dir(v).is_ok(),
            "@version" => *v == J::Num("1.1".to_string()),
            "@propagate" | "@protected" => boolean(v),
            "@import" => iri_ref(v),
            "@type" => v.obj().map_or(false, |o| {
                o.iter().all(|(k, v)| match k.as_str() {
                    "@container" => *v == s("@set") || *v == J::Arr(vec![s("@set")]),
                    "@protected" => boolean(v),
                    _ => false,
                })
            }),
            k => !is_keyword(k) && (v.is_null() || string(v) || v.obj().map_or(false, |_| definition(v))),
        }),
        _ => false,
    }
}

fn definition(d: &J) -> bool {
    d.obj().unwrap().iter().all(|(k, v)| match k.as_str() {
        "@id" | "@type" | "@language" => v.is_null() || string(v),
        "@direction" => dir(v).is_ok(),
        "@container" => {
            v.is_null()
                || v.as_items().iter().all(|c| {
                    ["@graph", "@id", "@index", "@language", "@list", "@set", "@type"].iter().any(|k| **c == s(k))
                })
        }
        "@nest" => v.str().map_or(false, |n| !is_keyword(n) || n == "@nest"),
        "@prefix" | "@protected" => boolean(v),
        "@index" | "@reverse" => string(v),
        "@context" => context(v),
        _ => false,
    })
}
