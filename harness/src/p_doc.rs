//! Expanded documents as data: reading, printing, comparing.
use crate::b::*;
use crate::glue::{self, Doc, Docs};
use crate::p_expand::{self as pe, BASE};
use crate::refimpl::json::*;
use crate::sym;
use json_ld::{Options, TryFromJson};

pub fn read(j: &J) -> Option<Doc> {
    Doc::try_from_json_in(&mut (), glue::val(j)).ok()
}
fn same(a: &J, b: &J) -> bool {
    let (mut a, mut b) = (a.clone(), b.clone());
    norm(&mut a);
    norm(&mut b);
    ld_eq(&a, &b, false)
}

/// Drops the bare values, lists and references of graphs: some container
/// mappings make them, and expansion drops them.
fn settle(j: &mut J) {
    match j {
        J::Arr(a) => a.iter_mut().for_each(settle),
        J::Obj(x) => {
            for (k, v) in x.iter_mut() {
                if k == "@value" {
                    continue;
                }
                settle(v);
                if let ("@graph", J::Arr(a)) = (k.as_str(), v) {
                    a.retain(|x| !(x.obj().unwrap().is_empty() || x.has("@value") || x.has("@list") || x.has("@id") && x.obj().unwrap().len() == 1))
                }
            }
        }
        _ => (),
    }
}

/// The expanded form is a fixed point of reading and of expansion.
fn fixed((doc, _): (J, bool)) {
    let e = match glue::expand_raw(&doc, Some(BASE), &Docs::default(), Options::default()) {
        Ok(e) => e,
        Err(_) => return sym::cover("no expanded form"),
    };
    let j = glue::to_j(e.clone());
    #[cfg(feature = "replay")]
    println!("doc  {}\nexp  {}", doc.print(), j.print());
    sym::observe(&[e.len() as u8]);
    sym::cover("expanded");
    match read(&j) {
        Some(r) => {
            let back = glue::to_j(r.clone());
            #[cfg(feature = "replay")]
            println!("read {}", back.print());
            sym::check(same(&back, &j), "reading the expanded form changes it");
            sym::check(r == e, "what is read differs from the expanded document")
        }
        None => sym::fail("the expanded form cannot be read"),
    }
    match glue::expand(&j, None, &Docs::default(), Options::default()) {
        Ok(again) => {
            #[cfg(feature = "replay")]
            println!("2nd  {}", again.print());
            let mut j = j;
            settle(&mut j);
            sym::check(same(&again, &j), "expanding the expanded form changes it")
        }
        Err(_) => sym::fail("the expanded form does not expand"),
    }
}
#[no_mangle]
pub extern "C" fn h_fixed_values() {
    fixed(pe::g_values())
}
#[no_mangle]
pub extern "C" fn h_fixed_maps() {
    fixed(pe::g_maps())
}
#[no_mangle]
pub extern "C" fn h_fixed_keywords() {
    fixed(pe::g_keywords())
}
#[no_mangle]
pub extern "C" fn h_fixed_twice() {
    fixed(pe::g_twice())
}
#[no_mangle]
pub extern "C" fn h_fixed_structure() {
    fixed(pe::g_structure())
}

/// Anything that is read is kept.
#[no_mangle]
pub extern "C" fn h_read() {
    let keys = [
        "@id", "@type", "@value", "@language", "@direction", "@index", "@list", "@set", "@graph", "@included", "@reverse",
        "http://e.x/p", "_:p", "rel", "@context", "@foo",
    ];
    let usual = |k: &str| -> J {
        match k {
            "@id" | "@language" | "@index" | "@value" => t("en"),
            "@direction" => t("rtl"),
            "@type" => pick(&[t("http://e.x/T"), a(&[t("http://e.x/T"), t("_:t"), t("@json")]), t("@json")]),
            "@reverse" => o(&[("http://e.x/q", a(&[o(&[("@id", t("_:b"))])]))]),
            _ => pick(&[a(&[o(&[("@id", t("_:b"))])]), a(&[o(&[("@value", t("v")), ("@index", t("i"))])])]),
        }
    };
    let k1 = pick(&keys);
    let v1 = match sym::choice(2) {
        0 => usual(k1),
        _ => pick(&[
            N,
            T,
            n("1.0"),
            t("x"),
            t("@json"),
            a(&[]),
            a(&[t("x"), t("x"), N]),
            a(&[o(&[("@value", n("1"))]), o(&[("@value", n("1"))])]),
            a(&[a(&[])]),
            o(&[]),
            o(&[("http://e.x/q", t("x"))]),
            o(&[("http://e.x/q", a(&[o(&[("@value", t("x"))])]))]),
            o(&[("@value", t("x"))]),
            a(&[o(&[("@list", a(&[o(&[("@value", N)]), o(&[("@list", a(&[]))])]))])]),
            a(&[o(&[("@id", t("_:b"))]), o(&[("@id", t("_:b"))])]),
        ]),
    };
    let k2 = pick(&keys);
    let v2 = usual(k2);
    let mut x = o(&[(k1, v1)]);
    if k1 == k2 {
        if let J::Obj(x) = &mut x {
            x.push((k2.to_string(), v2))
        }
    } else {
        x.set(k2, v2)
    }
    let twice = k1 == k2;
    let doc = match sym::choice(3) {
        0 => a(&[x]),
        1 => a(&[o(&[("@id", t("http://e.x/a")), ("http://e.x/r", a(&[x]))])]),
        _ => x,
    };
    match read(&doc) {
        Some(r) => {
            let back = glue::to_j(r.clone());
            #[cfg(feature = "replay")]
            println!("doc  {}\nread {}", doc.print(), back.print());
            sym::cover("read");
            sym::observe(&[r.len() as u8]);
            sym::check(!twice, "accepts an entry given twice");
            sym::check(same(&back, &doc), "drops what it reads");
            if k1 != "@type" || doc_types(&doc) {
                sym::check(read(&back) == Some(r), "reads something else the second time")
            }
        }
        None => sym::cover("refused"),
    }
}

/// No entry `"@type": []`, which is read but not printed.
fn doc_types(j: &J) -> bool {
    match j {
        J::Arr(a) => a.iter().all(doc_types),
        J::Obj(x) => x.iter().all(|(k, v)| !(k == "@type" && *v == J::Arr(vec![])) && doc_types(v)),
        _ => true,
    }
}
#[no_mangle]
pub extern "C" fn h_fixed_top() {
    fixed(pe::g_top())
}
