//! Compaction against the reference, and its reversal by expansion.
use crate::b::*;
use crate::glue::{self, Docs};
use crate::p_expand::{g_maps, g_structure, g_values, observe, BASE};
use crate::refimpl::compact as rcomp;
use crate::refimpl::ctx::{Env, E};
use crate::refimpl::expand as rexp;
use crate::refimpl::json::*;
use crate::sym;
use json_ld::{Options, ProcessingMode};

#[derive(Clone, Copy)]
pub struct Opts {
    pub arrays: bool,
    pub relative: bool,
    pub mode10: bool,
    /// Documents are identified by this IRI.
    pub url: Option<&'static str>,
}
impl Opts {
    pub fn new() -> Opts {
        Opts { arrays: true, relative: true, mode10: false, url: Some(BASE) }
    }
    fn get(&self) -> Options<iref::IriBuf> {
        let mut o = Options::default();
        o.compact_arrays = self.arrays;
        o.compact_to_relative = self.relative;
        if self.mode10 {
            o.processing_mode = ProcessingMode::JsonLd1_0
        }
        o
    }
}

fn no_context(r: &mut J) {
    if let J::Obj(o) = r {
        if o.len() == 1 && o[0].0 == "@context" {
            o.clear()
        }
    }
}

/// Array order is significant in compacted documents, but the order in which
/// properties are visited is not specified.
fn compare(doc: &J, ctx: &J, want: &Result<J, E>, got: &Result<J, E>) {
    #[cfg(feature = "replay")]
    {
        println!("doc  {}\nctx  {}", doc.print(), ctx.print());
        println!("want {}", crate::p_expand::show(want));
        println!("got  {}", crate::p_expand::show(got));
    }
    let _ = (doc, ctx);
    match (want, got) {
        (Ok(w), Ok(g)) => {
            sym::cover("both succeed");
            let (mut w, mut g) = (w.clone(), g.clone());
            no_context(&mut w);
            no_context(&mut g);
            sym::check(json_eq(&w, &g), "compacted document differs from the specified one")
        }
        (Err(w), Err(g)) => {
            sym::cover("both reject");
            sym::check(w == g, "error code differs from the specified one")
        }
        (Ok(_), Err(_)) => sym::fail("refuses to compact what the specification compacts"),
        (Err(_), Ok(_)) => sym::fail("compacts what the specification refuses"),
    }
}

pub struct Run {
    pub env: Env,
    pub expanded: J,
    pub want: Result<J, E>,
    pub got: Result<J, E>,
}

pub fn run(doc: &J, ctx: &J, o: Opts) -> Option<Run> {
    let d = Docs::default();
    let expanded = match glue::expand(doc, o.url, &d, o.get()) {
        Ok(e) => e,
        Err(_) => {
            sym::cover("no expanded form");
            return None;
        }
    };
    let env = Env::new(&[], o.mode10);
    let want = rcomp::compact_document(&env, &expanded, ctx, o.url, None, o.arrays, o.relative);
    let got = glue::compact(doc, o.url, ctx, &d, o.get());
    observe(&got);
    Some(Run { env, expanded, want, got })
}

pub fn diff(doc: &J, ctx: &J, o: Opts) {
    if let Some(r) = run(doc, ctx, o) {
        if r.env.unspecified.get() {
            sym::cover("unspecified");
            return;
        }
        if r.env.lossy.get() {
            // Either of the two readings.
            let mut env = Env::new(&[], o.mode10);
            env.literal = true;
            let literal = rcomp::compact_document(&env, &r.expanded, ctx, o.url, None, o.arrays, o.relative);
            let same = match (&literal, &r.got) {
                (Ok(l), Ok(g)) => json_eq(l, g),
                (Err(l), Err(g)) => l == g,
                _ => false,
            };
            if same {
                sym::cover("lossy reading");
                return;
            }
        }
        compare(doc, ctx, &r.want, &r.got);
    }
}

/// Expanding the compacted document must give back what was compacted,
/// wherever the specified algorithm is able to.
pub fn round(doc: &J, ctx: &J, o: Opts) {
    let r = match run(doc, ctx, o) {
        None => return,
        Some(r) => r,
    };
    let w = match &r.want {
        Ok(w) => w,
        Err(_) => {
            sym::cover("refused");
            return;
        }
    };
    let env = Env::new(&[], o.mode10);
    let back = rexp::expand_document(&env, w, o.url);
    let mut back = match back {
        Ok(b) => b,
        Err(_) => {
            sym::cover("lossy");
            return;
        }
    };
    norm(&mut back);
    let mut expanded = r.expanded.clone();
    norm(&mut expanded);
    if !ld_eq(&back, &expanded, false) {
        sym::cover("lossy");
        return;
    }
    let g = match &r.got {
        Ok(g) => g,
        Err(_) => sym::fail("refuses to compact"),
    };
    let again = glue::expand(g, o.url, &Docs::default(), o.get());
    #[cfg(feature = "replay")]
    println!("doc  {}\nctx  {}\ngot  {}\nback {}", doc.print(), ctx.print(), g.print(), crate::p_expand::show(&again));
    match again {
        Ok(mut x) => {
            norm(&mut x);
            sym::cover("round trip");
            sym::check(ld_eq(&x, &expanded, false), "expansion does not undo compaction")
        }
        Err(_) => sym::fail("the compacted document does not expand"),
    }
}

const P: &str = "http://e.x/p";

/// IRIs of every role, with symbolic bytes, against terms and prefixes.
fn iris() -> (J, J) {
    let i = match sym::choice(4) {
        0 => {
            let (x, y) = (sym::byte_in(b"p/#:q"), sym::byte_in(b"p/:q"));
            let mut i = "http://e.x/".to_string();
            i.push(x as char);
            i.push(y as char);
            i
        }
        1 => sy("http://b.x/d/??", b"fg:@/"),
        2 => sy("q:??", b"p/x"),
        _ => pick(&["_:b", "http://e.x/p", "http://e.x/", "urn:q:p", "http://v.x/vt", "http://v.x/", "http://b.x/", "http://b.x/d/f?q"]).to_string(),
    };
    let mut ctx = match sym::choice(6) {
        0 => o(&[]),
        1 => o(&[("q", t("http://e.x/"))]),
        2 => o(&[("q", o(&[("@id", t("http://e.x/p")), ("@prefix", T)])), ("qq", t("http://e.x/"))]),
        3 => o(&[("p", t("http://e.x/p")), ("q", o(&[("@id", t("http://e.x/")), ("@prefix", F)]))]),
        4 => o(&[("q", t("http://e.x/")), ("r", t("http://e.x/p/")), ("q:p", t("http://e.x/p"))]),
        _ => o(&[("q", t("http://e.x/")), ("qa", t("http://e.x/")), ("qb", t("http://e.x/p#"))]),
    };
    match sym::choice(4) {
        0 => (),
        1 => ctx.set("@vocab", t("http://v.x/")),
        2 => ctx.set("@vocab", t("http://e.x/")),
        _ => ctx.set("@base", t("http://e.x/p/")),
    }
    let doc = match sym::choice(3) {
        0 => o(&[("@id", t(&i)), (P, t("v"))]),
        1 => o(&[("@type", t(&i)), (&i, t("v"))]),
        _ => o(&[(P, o(&[("@id", t(&i))])), ("http://z.x/t", o(&[("@value", t("v")), ("@type", t(&i))]))]),
    };
    (doc, ctx)
}

fn value() -> J {
    let mut v = match sym::choice(15) {
        0 => o(&[("@value", t("s"))]),
        1 => o(&[("@value", T)]),
        2 => o(&[("@value", n("5"))]),
        3 => o(&[("@value", t("s")), ("@language", t("en"))]),
        4 => o(&[("@value", t("s")), ("@language", t("EN")), ("@direction", t("ltr"))]),
        5 => o(&[("@value", t("s")), ("@direction", t("rtl"))]),
        6 => o(&[("@value", t("s")), ("@type", t("http://e.x/T"))]),
        7 => o(&[("@value", n("5")), ("@type", t("http://e.x/T"))]),
        8 => o(&[("@value", o(&[("a", a(&[n("1")]))])), ("@type", t("@json"))]),
        9 => o(&[("@value", N), ("@type", t("@json"))]),
        10 => return o(&[("@id", t("http://e.x/n"))]),
        11 => return o(&[("@id", t("http://e.x/p"))]),
        12 => return o(&[("@id", t("http://e.x/n")), ("@type", a(&[t("http://e.x/T")]))]),
        13 => return o(&[("http://e.x/q", t("w"))]),
        _ => o(&[("@value", t("s")), ("@language", t("fr"))]),
    };
    if sym::choice(2) == 1 {
        v.set("@index", t("ix"))
    }
    v
}

/// Definitions of a term for `http://e.x/p`.
fn def() -> J {
    let id = ("@id", t(P));
    match sym::choice(16) {
        0 => t(P),
        1 => o(&[id, ("@type", t("@id"))]),
        2 => o(&[id, ("@type", t("@vocab"))]),
        3 => o(&[id, ("@type", t("http://e.x/T"))]),
        4 => o(&[id, ("@type", t("@json"))]),
        5 => o(&[id, ("@type", t("@none"))]),
        6 => o(&[id, ("@language", t("en"))]),
        7 => o(&[id, ("@language", N)]),
        8 => o(&[id, ("@direction", t("rtl"))]),
        9 => o(&[id, ("@language", t("en")), ("@direction", t("ltr"))]),
        10 => o(&[id, ("@language", N), ("@direction", N)]),
        11 => o(&[id, ("@container", t("@set"))]),
        12 => o(&[id, ("@container", t("@index"))]),
        13 => o(&[id, ("@container", t("@language"))]),
        14 => o(&[id, ("@direction", N)]),
        _ => o(&[id, ("@container", a(&[t("@index"), t("@set")])), ("@type", t("http://e.x/T"))]),
    }
}
fn defaults(ctx: &mut J) {
    match sym::choice(4) {
        0 => (),
        1 => ctx.set("@language", t("en")),
        2 => ctx.set("@direction", t("ltr")),
        _ => {
            ctx.set("@language", t("EN"));
            ctx.set("@direction", t("rtl"))
        }
    }
}

/// One value under one or two terms.
fn values1() -> (J, J) {
    let mut ctx = o(&[("p", def())]);
    defaults(&mut ctx);
    (o(&[(P, value())]), ctx)
}
/// Two values under two terms.
fn values2() -> (J, J) {
    let vals = || {
        let mut v = match sym::choice(7) {
            0 => o(&[("@value", t("s"))]),
            1 => o(&[("@value", n("5"))]),
            2 => o(&[("@value", t("s")), ("@language", t("en"))]),
            3 => o(&[("@value", t("r")), ("@type", t("http://e.x/T"))]),
            4 => return o(&[("@id", t("http://e.x/n"))]),
            5 => o(&[("@value", t("s")), ("@language", t("en")), ("@direction", t("ltr"))]),
            _ => return o(&[("http://e.x/q", t("w"))]),
        };
        if sym::choice(2) == 1 {
            v.set("@index", t("ix"))
        }
        v
    };
    let id = ("@id", t(P));
    let other = match sym::choice(5) {
        0 => t(P),
        1 => o(&[id, ("@type", t("http://e.x/T"))]),
        2 => o(&[id, ("@language", t("en"))]),
        3 => o(&[id, ("@container", t("@language"))]),
        _ => o(&[id, ("@type", t("@id")), ("@container", t("@set"))]),
    };
    let ctx = o(&[("p", def()), ("o", other)]);
    let first = vals();
    (o(&[(P, a(&[first, pick(&[t("z"), o(&[("@value", t("s")), ("@language", t("en"))]), n("7"), o(&[("@id", t("http://e.x/n"))])])]))]), ctx)
}

/// Lists under terms.
fn lists() -> (J, J) {
    let item = || match sym::choice(7) {
        0 => o(&[("@value", t("s"))]),
        1 => o(&[("@value", t("s")), ("@language", t("en"))]),
        2 => o(&[("@value", t("s")), ("@type", t("http://e.x/T"))]),
        3 => o(&[("@id", t("http://e.x/n"))]),
        4 => o(&[("@value", n("5"))]),
        5 => o(&[("@list", a(&[t("in")]))]),
        _ => o(&[("@value", t("s")), ("@direction", t("rtl")), ("@language", t("en"))]),
    };
    let items = match sym::choice(3) {
        0 => a(&[]),
        1 => a(&[item()]),
        _ => a(&[item(), pick(&[t("z"), o(&[("@id", t("http://e.x/n"))]), o(&[("@value", t("s")), ("@type", t("http://e.x/T"))])])]),
    };
    let mut l = o(&[("@list", items)]);
    if sym::choice(2) == 1 {
        l.set("@index", t("ix"))
    }
    let id = ("@id", t(P));
    let list = ("@container", t("@list"));
    let d = || match sym::choice(9) {
        0 => t(P),
        1 => o(&[id.clone(), list.clone()]),
        2 => o(&[id.clone(), list.clone(), ("@type", t("@id"))]),
        3 => o(&[id.clone(), list.clone(), ("@type", t("http://e.x/T"))]),
        4 => o(&[id.clone(), list.clone(), ("@language", t("en"))]),
        5 => o(&[id.clone(), list.clone(), ("@language", N)]),
        6 => o(&[id.clone(), ("@container", t("@index"))]),
        7 => o(&[id.clone(), ("@container", t("@set"))]),
        _ => o(&[id.clone(), list.clone(), ("@type", t("@none"))]),
    };
    let mut ctx = o(&[("p", d())]);
    if sym::choice(2) == 1 {
        ctx.set("o", pick(&[t(P), o(&[id.clone(), list.clone(), ("@language", N)]), o(&[id.clone(), list.clone(), ("@type", t("@id"))])]))
    } else {
        defaults(&mut ctx);
    }
    (o(&[(P, if sym::choice(2) == 0 { l } else { a(&[l, t("x")]) })]), ctx)
}

fn mapped() -> J {
    let mut x = match sym::choice(7) {
        0 => o(&[("@id", t("http://e.x/n")), ("http://e.x/q", t("w"))]),
        1 => o(&[("@type", a(&[t("http://e.x/T"), t("http://e.x/U")])), ("http://e.x/q", t("w"))]),
        2 => o(&[("@id", t("http://e.x/n")), ("@type", t("http://e.x/T"))]),
        3 => o(&[("@id", t("http://e.x/n"))]),
        4 => o(&[("@graph", a(&[o(&[("http://e.x/q", t("w"))])]))]),
        5 => o(&[("@graph", a(&[o(&[("@id", t("http://e.x/m")), ("http://e.x/q", t("w"))]), o(&[("http://e.x/q", t("x"))])])), ("@id", t("http://e.x/g"))]),
        _ => o(&[("http://e.x/q", a(&[t("w"), t("y")])), ("http://e.x/ix", a(&[pick(&[t("one"), T]), t("two")]))]),
    };
    if sym::choice(2) == 1 {
        x.set("@index", t("ix"))
    }
    x
}
fn map_def() -> J {
    let cs = [
        t("@id"), t("@type"), t("@index"), t("@graph"), a(&[t("@graph"), t("@id")]), a(&[t("@graph"), t("@index")]),
        a(&[t("@id"), t("@set")]), a(&[t("@set"), t("@type")]), a(&[t("@graph"), t("@set")]), a(&[t("@graph"), t("@id"), t("@set")]),
        a(&[t("@index"), t("@set")]), a(&[t("@graph"), t("@index"), t("@set")]), t("@set"),
    ];
    o(&[("@id", t(P)), ("@container", pick(&cs))])
}
fn map_terms() -> J {
    o(&[("q", t("http://e.x/q")), ("n", t("http://e.x/n")), ("T", t("http://e.x/T"))])
}
fn aliases(ctx: &mut J) {
    for (k, v) in [("id", "@id"), ("type", "@type"), ("none", "@none"), ("index", "@index"), ("graph", "@graph"), ("inc", "@included")] {
        ctx.set(k, t(v))
    }
}

/// A node or graph under map containers.
fn maps1() -> (J, J) {
    let mut ctx = map_terms();
    let mut d = map_def();
    match sym::choice(4) {
        0 => (),
        1 => d.set("@type", t("@id")),
        2 => d.set("@type", t("@vocab")),
        _ => {
            if d.get("@container").unwrap().as_items().iter().any(|c| **c == t("@index")) {
                d.set("@index", pick(&[t("http://e.x/ix"), t("e:ix"), t("ix")]))
            }
        }
    }
    ctx.set("p", d);
    match sym::choice(3) {
        0 => ctx.set("@vocab", t("http://e.x/")),
        1 => aliases(&mut ctx),
        _ => {
            ctx.set("ix", t("http://e.x/ix"));
            ctx.set("e", t("http://e.x/"))
        }
    }
    (o(&[(P, mapped())]), ctx)
}
/// Two nodes or graphs under map containers.
fn maps2() -> (J, J) {
    let mut ctx = map_terms();
    ctx.set("p", map_def());
    if sym::choice(2) == 1 {
        aliases(&mut ctx)
    }
    (o(&[(P, a(&[mapped(), mapped()]))]), ctx)
}

/// Keywords, aliases, reverse properties, nesting, inclusion and top level
/// shapes.
fn nodes() -> (J, J) {
    const Q: &str = "http://e.x/q";
    let n = || ("@id", t("http://e.x/n"));
    let body = match sym::choice(13) {
        0 => o(&[n(), ("@type", a(&[t("http://e.x/T"), t("http://e.x/U")])), (P, t("v"))]),
        1 => o(&[("@reverse", o(&[(P, a(&[o(&[n()])]))])), (Q, t("v"))]),
        2 => o(&[("@reverse", o(&[(P, a(&[o(&[n(), (Q, t("v"))]), o(&[(Q, T), ("@index", t("ix"))])])), (Q, a(&[o(&[("@id", t("http://e.x/m"))])]))]))]),
        3 => o(&[("@included", a(&[o(&[n(), (P, t("v"))]), o(&[(Q, T)])])), (P, t("v"))]),
        4 => o(&[("@graph", a(&[o(&[n(), (P, t("v"))])])), ("@id", t("http://e.x/g"))]),
        5 => o(&[(P, a(&[t("v"), t("w")])), (Q, a(&[]))]),
        6 => a(&[o(&[(P, t("v"))]), o(&[("@type", t("http://e.x/T")), (Q, o(&[(P, T)]))])]),
        7 => o(&[(P, o(&[("@graph", a(&[]))])), (Q, o(&[("@list", a(&[]))]))]),
        8 => o(&[(P, o(&[n()])), ("@reverse", o(&[(P, o(&[("@id", t("http://e.x/m"))]))]))]),
        9 => o(&[(P, o(&[(Q, o(&[n(), ("@index", t("ix"))])), ("@reverse", o(&[(Q, o(&[("@type", t("http://e.x/T"))]))]))]))]),
        10 => a(&[o(&[("@graph", a(&[o(&[(P, t("v"))]), o(&[(Q, t("w"))])]))]), o(&[(P, t("x"))])]),
        11 => o(&[("@included", o(&[n(), (Q, o(&[("@value", t("v")), ("@index", t("ix"))]))])), (Q, a(&[o(&[n()]), T]))]),
        _ => o(&[("@id", t("_:b")), (P, a(&[o(&[("@id", t("_:b"))]), t("")]))]),
    };
    let mut ctx = match sym::choice(8) {
        0 => o(&[("p", t(P))]),
        1 => o(&[("r", o(&[("@reverse", t(P))])), ("q", t(Q))]),
        2 => o(&[("r", o(&[("@reverse", t(P)), ("@container", pick(&[t("@set"), t("@index")]))])), ("p", t(P))]),
        3 => o(&[("p", o(&[("@id", t(P)), ("@nest", t("@nest"))])), ("q", o(&[("@id", t(Q)), ("@nest", t("m"))])), ("m", pick(&[t("@nest"), t("http://e.x/m")]))]),
        4 => o(&[("r", o(&[("@reverse", t(P)), ("@type", pick(&[t("@id"), t("@vocab")]))])), ("n", t("http://e.x/n"))]),
        5 => o(&[("p", o(&[("@id", t(P)), ("@container", pick(&[t("@set"), t("@list")])), ("@nest", t("m"))])), ("m", t("@nest"))]),
        6 => o(&[("q", o(&[("@id", t(Q)), ("@container", t("@index")), ("@nest", t("@nest"))])), ("s", o(&[("@reverse", t(Q)), ("@container", t("@index"))]))]),
        _ => o(&[("p", o(&[("@id", t(P)), ("@type", t("@id")), ("@container", t("@set"))]))]),
    };
    match sym::choice(6) {
        0 => (),
        1 => {
            for (k, v) in [("id", "@id"), ("type", "@type"), ("rev", "@reverse"), ("inc", "@included"), ("graph", "@graph"), ("list", "@list"), ("val", "@value"), ("ixx", "@index")] {
                ctx.set(k, t(v))
            }
        }
        2 => {
            ctx.set("@type", o(&[("@container", t("@set"))]));
            ctx.set("T", t("http://e.x/T"))
        }
        3 => {
            ctx.set("type", o(&[("@id", t("@type")), ("@container", t("@set"))]));
            ctx.set("@vocab", t("http://e.x/"))
        }
        4 => ctx.set("@vocab", t("")),
        _ => {
            ctx.set("e", t("http://e.x/"));
            ctx.set("@base", pick(&[N, t("http://e.x/a/")]))
        }
    }
    (body, ctx)
}

/// Scoped contexts.
fn scoped() -> (J, J) {
    let prop = |j: &mut J| match sym::choice(3) {
        0 => (),
        1 => j.set("@propagate", F),
        _ => j.set("@propagate", T),
    };
    let mut pc = pick(&[o(&[("s", t("http://e.x/s"))]), o(&[("@vocab", t("http://e.x/"))]), o(&[("s", N)])]);
    prop(&mut pc);
    let mut tc = pick(&[o(&[("s", t("http://e.x/s"))]), o(&[("k", o(&[("@id", t(P)), ("@type", t("@id"))]))]), N]);
    prop(&mut tc);
    let mut ctx = o(&[
        ("p", o(&[("@id", t(P)), ("@context", pc)])),
        ("T", o(&[("@id", t("http://e.x/T")), ("@context", tc)])),
        ("u", t("http://e.x/s")),
    ]);
    if sym::choice(2) == 1 {
        ctx.get_mut("p").unwrap().set("@container", t("@list"))
    }
    let leaf = || o(&[("http://e.x/s", t("c")), (P, o(&[("@id", t("http://e.x/z"))]))]);
    let mid = match sym::choice(5) {
        0 => o(&[("http://e.x/s", t("b")), (P, leaf())]),
        1 => o(&[("@type", t("http://e.x/T")), ("http://e.x/s", t("b")), (P, leaf())]),
        2 => o(&[("@id", t("http://e.x/s"))]),
        3 => o(&[("@value", t("x")), ("@type", t("http://e.x/s"))]),
        _ => o(&[("@list", a(&[leaf()]))]),
    };
    let mut top = o(&[(P, mid), ("http://e.x/s", t("a"))]);
    if sym::choice(2) == 1 {
        top.set("@type", t("http://e.x/T"))
    }
    (top, ctx)
}

/// Types with contexts of their own, listed in any order.
fn types() -> (J, J) {
    let def = || match sym::choice(8) {
        0 => o(&[("p", t(P))]),
        1 => o(&[("p", o(&[("@id", t(P)), ("@language", t("en"))]))]),
        2 => o(&[("p", o(&[("@id", t(P)), ("@type", t("@id")), ("@container", t("@set"))]))]),
        3 => o(&[("@vocab", t("http://e.x/"))]),
        4 => N,
        5 => o(&[("p", N), ("x", t("http://e.x/Y"))]),
        6 => o(&[("@propagate", T), ("p", o(&[("@id", t(P)), ("@language", t("en"))]))]),
        _ => o(&[("@language", t("en"))]),
    };
    // Terms in the order of the types, and not.
    let (x, y) = pick(&[("a", "b"), ("b", "a")]);
    let mut ctx = o(&[
        (x, o(&[("@id", t("http://e.x/X")), ("@context", def())])),
        (y, o(&[("@id", t("http://e.x/Y")), ("@context", def())])),
        ("p", o(&[("@id", t(P)), ("@type", t("@vocab"))])),
    ]);
    if sym::choice(2) == 1 {
        ctx.set("c", o(&[("@id", t("http://e.x/Z")), ("@context", o(&[("p", t("http://e.x/r"))]))]))
    }
    let v = match sym::choice(4) {
        0 => t("v"),
        1 => o(&[("@value", t("v")), ("@language", t("en"))]),
        2 => o(&[("@id", t("http://e.x/Y"))]),
        _ => o(&[(P, a(&[o(&[("@value", t("w")), ("@language", t("en"))]), o(&[("@id", t("http://e.x/n"))])]))]),
    };
    let types = match sym::choice(4) {
        0 => a(&[t("http://e.x/X"), t("http://e.x/Y")]),
        1 => a(&[t("http://e.x/Y"), t("http://e.x/X")]),
        2 => a(&[t("http://e.x/Z"), t("http://e.x/Y"), t("http://e.x/X")]),
        _ => a(&[t("http://e.x/Y"), t("http://e.x/p"), t("http://e.x/Y")]),
    };
    (o(&[("@type", types), (P, v)]), ctx)
}

/// Several prefixes, candidates that are themselves terms, schemes that are
/// prefixes, and what looks like a keyword.
fn prefixes() -> (J, J) {
    let place = sym::choice(3);
    let mut iris = vec!["http://e.x/p", "http://e.x/q", "http://e.x/", "urn:x:pq", "urn:x:p", "urn://h/p", "tag:p/", "_:q"];
    if place == 0 {
        iris.extend(["http://b.x/d/@ab", "http://b.x/d/@id", "http://b.x/d/@1"])
    }
    let iri = pick(&iris).to_string();
    let def = |n: usize| match sym::choice(n) {
        0 => t("http://e.x/"),
        1 => t("urn:x:"),
        2 => o(&[("@id", t("http://e.x/p")), ("@prefix", if n == 6 { T } else { F })]),
        3 => o(&[("@id", t("urn:x:p")), ("@prefix", T)]),
        4 => t("tag:"),
        _ => N,
    };
    let mut c = o(&[("q", def(6)), ("r", def(2))]);
    match sym::choice(5) {
        0 => c.set("@vocab", pick(&[t("http://e.x/"), t("urn:x:")])),
        1 => c.set("urn", pick(&[t("http://e.x/"), t("http://n.x/u#")])),
        2 => c.set("tag", o(&[("@id", t("urn:x:")), ("@prefix", T)])),
        3 => c.set("qq", t("http://e.x/")),
        _ => (),
    }
    // What was a compact IRI when it was defined need not be one now.
    let c = match sym::choice(4) {
        0 => c,
        1 => a(&[c, o(&[("q:p", t("http://e.x/p"))])]),
        2 => a(&[o(&[("q", t("http://e.x/")), ("q:p", t("http://e.x/p"))]), o(&[("q", N)]), c]),
        _ => a(&[o(&[("r", t("urn:x:")), ("r:pq", t("urn:x:pq")), ("r:p", N)]), c]),
    };
    let doc = match place {
        0 => o(&[("@id", t(&iri)), ("http://z.x/p", t("v"))]),
        1 => o(&[(&iri, t("v"))]),
        _ => o(&[("http://z.x/p", o(&[("@value", t("v")), ("@type", t(&iri))]))]),
    };
    (doc, c)
}

/// Definitions that compete for one value.
fn select() -> (J, J) {
    let d = || {
        let id = ("@id", t(P));
        match sym::choice(19) {
            0 => t(P),
            1 => o(&[id, ("@type", t("@id"))]),
            2 => o(&[id, ("@type", t("@vocab"))]),
            3 => o(&[id, ("@type", t("http://e.x/T"))]),
            4 => o(&[id, ("@type", t("@json"))]),
            5 => o(&[id, ("@type", t("@none"))]),
            6 => o(&[id, ("@language", t("en"))]),
            7 => o(&[id, ("@language", N)]),
            8 => o(&[id, ("@direction", t("rtl"))]),
            9 => o(&[id, ("@language", t("en")), ("@direction", t("rtl"))]),
            10 => o(&[id, ("@language", N), ("@direction", N)]),
            11 => o(&[id, ("@container", t("@set"))]),
            12 => o(&[id, ("@container", t("@index"))]),
            13 => o(&[id, ("@container", t("@language"))]),
            14 => o(&[id, ("@container", a(&[t("@set"), t("@language")])), ("@direction", t("rtl"))]),
            15 => o(&[id, ("@container", t("@id"))]),
            16 => o(&[id, ("@container", t("@type")), ("@type", t("@vocab"))]),
            17 => o(&[id, ("@container", t("@graph"))]),
            _ => o(&[id, ("@container", t("@index")), ("@language", t("en"))]),
        }
    };
    let v = match sym::choice(14) {
        0 => t("s"),
        1 => n("5"),
        2 => o(&[("@value", t("s")), ("@language", t("en"))]),
        3 => o(&[("@value", t("s")), ("@language", t("en")), ("@direction", t("rtl"))]),
        4 => o(&[("@value", t("s")), ("@direction", t("rtl"))]),
        5 => o(&[("@value", t("s")), ("@type", t("http://e.x/T"))]),
        6 => o(&[("@value", t("s")), ("@index", t("i"))]),
        7 => o(&[("@value", t("s")), ("@language", t("en")), ("@index", t("i"))]),
        8 => o(&[("@id", t("http://e.x/n"))]),
        9 => o(&[("@id", t("http://v.x/n"))]),
        10 => o(&[("@id", t("http://e.x/n")), ("@type", t("http://e.x/T")), ("@index", t("i"))]),
        11 => o(&[("@value", a(&[])), ("@type", t("@json"))]),
        12 => o(&[("@graph", a(&[o(&[("http://e.x/q", T)])]))]),
        _ => o(&[("@value", t("s")), ("@type", t("http://e.x/T")), ("@index", t("i"))]),
    };
    // Names in either order.
    let ctx = o(&[("p", d()), ("o", d()), ("n", t("http://e.x/n")), ("v", o(&[("@id", t("http://v.x/")), ("@prefix", T)]))]);
    (o(&[(P, v)]), ctx)
}

/// Lists of several kinds of items under competing terms.
fn lists2() -> (J, J) {
    let item = || match sym::choice(9) {
        0 => t("s"),
        1 => o(&[("@value", t("s")), ("@language", t("en"))]),
        2 => o(&[("@value", t("s")), ("@language", t("en")), ("@direction", t("rtl"))]),
        3 => o(&[("@value", t("s")), ("@direction", t("rtl"))]),
        4 => o(&[("@value", t("s")), ("@type", t("http://e.x/T"))]),
        5 => o(&[("@value", N), ("@type", t("@json"))]),
        6 => o(&[("@id", t("http://e.x/n"))]),
        7 => o(&[("@list", a(&[]))]),
        _ => F,
    };
    let d = |i: usize| {
        let mut d = o(&[("@id", t(P)), ("@container", t("@list"))]);
        match i {
            0 => (),
            1 => d.set("@type", t("@id")),
            2 => d.set("@type", t("@vocab")),
            3 => d.set("@type", t("http://e.x/T")),
            4 => d.set("@type", t("@json")),
            5 => d.set("@language", t("en")),
            6 => d.set("@language", N),
            7 => d.set("@direction", t("rtl")),
            8 => {
                d.set("@language", t("en"));
                d.set("@direction", t("rtl"))
            }
            9 => d.set("@type", t("@none")),
            _ => {
                d.remove("@container");
            }
        }
        d
    };
    let mut items = vec![item(), item()];
    if sym::choice(2) == 1 {
        items.push(pick(&[t("z"), o(&[("@id", t("http://e.x/m"))])]))
    }
    let ctx = o(&[("p", d(sym::choice(11))), ("o", d(pick(&[0, 6, 1, 9])))]);
    (o(&[(P, o(&[("@list", J::Arr(items))]))]), ctx)
}

/// What json-ld-1.0 has, in that mode.
fn old() -> (J, J) {
    let id = || ("@id", t(P));
    let mut ctx = o(&[("p", match sym::choice(9) {
        0 => t(P),
        1 => o(&[id(), ("@container", t("@set"))]),
        2 => o(&[id(), ("@container", t("@index"))]),
        3 => o(&[id(), ("@container", t("@language"))]),
        4 => o(&[id(), ("@container", t("@list"))]),
        5 => o(&[id(), ("@type", t("@id"))]),
        6 => o(&[id(), ("@type", t("@vocab")), ("@container", t("@index"))]),
        7 => o(&[id(), ("@language", t("en"))]),
        _ => o(&[id(), ("@container", a(&[t("@index")]))]),
    })]);
    match sym::choice(5) {
        0 => (),
        1 => ctx.set("type", o(&[("@id", t("@type")), ("@container", t("@set"))])),
        2 => ctx.set("r", o(&[("@reverse", t(P)), ("@container", t("@index"))])),
        3 => ctx.set("o", o(&[("@id", t(P)), ("@container", t("@set"))])),
        _ => {
            ctx.set("x", t("http://e.x/"));
            ctx.set("g", t("@graph"));
            ctx.set("type", t("@type"))
        }
    }
    let v = match sym::choice(9) {
        0 => t("v"),
        1 => n("5"),
        2 => o(&[("@value", t("v")), ("@language", t("en"))]),
        3 => o(&[("@value", t("v")), ("@index", t("i"))]),
        4 => o(&[("@list", a(&[t("v"), t("w")]))]),
        5 => o(&[("@id", t("http://e.x/n")), ("@index", t("i"))]),
        6 => a(&[t("v"), o(&[("@value", t("w")), ("@language", t("fr"))])]),
        7 => o(&[("@graph", a(&[o(&[(P, t("v"))])])), ("@index", t("i"))]),
        _ => o(&[("@type", t("http://e.x/T")), (P, t("x"))]),
    };
    let doc = match sym::choice(4) {
        0 => o(&[(P, v)]),
        1 => o(&[("@type", pick(&[t("http://e.x/T"), a(&[t("http://e.x/T"), t("http://e.x/U")])])), (P, v)]),
        2 => a(&[o(&[(P, v)]), o(&[("http://e.x/q", T)])]),
        _ => o(&[("http://e.x/q", T), ("@reverse", o(&[(P, o(&[("@id", t("http://e.x/n")), ("http://e.x/q", v)]))]))]),
    };
    (doc, ctx)
}

/// A document under its own context, which is what most are compacted with.
fn own((doc, _): (J, bool)) -> (J, J) {
    let c = doc.get("@context").cloned().unwrap_or(N);
    (doc, c)
}

fn own_maps() -> (J, J) {
    own(g_maps())
}
fn own_values() -> (J, J) {
    own(g_values())
}
fn own_structure() -> (J, J) {
    own(g_structure())
}
fn revert() -> (J, J) {
    own(crate::p_context::g_revert(2))
}

fn arrays() -> Opts {
    Opts { arrays: sym::choice(2) == 0, ..Opts::new() }
}

macro_rules! pair {
    ($c:ident, $r:ident, $g:ident, $o:expr) => {
        #[no_mangle]
        pub extern "C" fn $c() {
            let (d, c) = $g();
            diff(&d, &c, $o);
        }
        #[no_mangle]
        pub extern "C" fn $r() {
            let (d, c) = $g();
            round(&d, &c, $o);
        }
    };
}
pair!(h_compact_iris, h_round_iris, iris, Opts { relative: sym::choice(2) == 0, ..Opts::new() });
pair!(h_compact_values1, h_round_values1, values1, arrays());
pair!(h_compact_values2, h_round_values2, values2, Opts::new());
pair!(h_compact_lists, h_round_lists, lists, Opts::new());
pair!(h_compact_maps1, h_round_maps1, maps1, arrays());
pair!(h_compact_maps2, h_round_maps2, maps2, Opts::new());
pair!(h_compact_nodes, h_round_nodes, nodes, arrays());
pair!(h_compact_scoped, h_round_scoped, scoped, Opts::new());
pair!(h_compact_prefixes, h_round_prefixes, prefixes, Opts::new());
pair!(h_compact_select, h_round_select, select, Opts::new());
pair!(h_compact_types, h_round_types, types, Opts::new());
pair!(h_compact_lists2, h_round_lists2, lists2, Opts::new());
pair!(h_compact_own_maps, h_round_own_maps, own_maps, arrays());
pair!(h_compact_own_values, h_round_own_values, own_values, Opts::new());
pair!(h_compact_own_structure, h_round_own_structure, own_structure, Opts::new());
pair!(h_compact_revert, h_round_revert, revert, Opts::new());
pair!(h_compact_mode10, h_round_mode10, old, Opts { mode10: true, ..arrays() });
