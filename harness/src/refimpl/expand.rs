//! Expansion (JSON-LD 1.1 API, section 5.1 and 5.3).
use super::ctx::*;
use super::json::*;

fn is_value(j: &J) -> bool {
    j.has("@value")
}
fn is_list(j: &J) -> bool {
    j.has("@list")
}
/// A graph object: `@graph`, and optionally `@id` and `@index`.
pub fn is_graph(j: &J) -> bool {
    j.has("@graph") && j.obj().unwrap().iter().all(|(k, _)| k == "@graph" || k == "@id" || k == "@index")
}

/// The `expand()` operation on an already loaded document.
pub fn expand_document(env: &Env, doc: &J, base: Option<&str>) -> R<J> {
    expand_with(env, &Ctx::new(base), doc, base)
}
/// A context given in an option: its content, or its IRI, and the base it comes with.
pub type ContextArg = (J, Option<String>);

/// The `expand()` operation with a document URL, the base and expandContext
/// options, and a linked context.
pub fn expand_api(
    env: &Env,
    doc: &J,
    url: Option<&str>,
    base: Option<&str>,
    expand_context: Option<&ContextArg>,
    link: Option<&str>,
) -> R<J> {
    let mut a = Ctx::new(url.or(base));
    if base.is_some() {
        a.base = base.map(|s| s.to_string())
    }
    if let Some((c, b)) = expand_context {
        let original = a.base_url.clone();
        a = env.process(&a, c, b.as_deref().or(original.as_deref()), Opt::new())?;
    }
    if let Some(l) = link {
        a = env.process(&a, &J::Str(l.to_string()), Some(l), Opt::new())?
    }
    expand_with(env, &a, doc, url.or(base))
}

pub fn expand_with(env: &Env, a: &Ctx, doc: &J, base: Option<&str>) -> R<J> {
    let x = Expander { env, base: base.map(|s| s.to_string()) };
    let mut e = x.element(a, None, doc, false)?;
    if let J::Obj(o) = &e {
        if o.len() == 1 && o[0].0 == "@graph" {
            e = e.remove("@graph").unwrap();
        }
    }
    Ok(match e {
        J::Null => J::Arr(vec![]),
        J::Arr(_) => e,
        x => J::Arr(vec![x]),
    })
}

struct Expander<'a> {
    env: &'a Env,
    base: Option<String>,
}

struct Frame<'a> {
    ap: Option<&'a str>,
    type_ctx: Ctx,
    input_type: Option<String>,
}

impl Expander<'_> {
    fn iri(&self, a: &Ctx, v: &str, vocab: bool, doc: bool) -> Option<String> {
        self.env.expand_iri(a, v, vocab, doc)
    }

    fn element(&self, a: &Ctx, ap: Option<&str>, el: &J, from_map: bool) -> R<J> {
        if el.is_null() {
            return Ok(J::Null);
        }
        let def = ap.and_then(|p| a.def(p));
        let psc: Option<(J, Option<String>)> =
            def.and_then(|d| d.ctx.clone().map(|c| (c, d.base_url.clone())));
        if el.is_scalar() {
            if ap.is_none() || ap == Some("@graph") {
                return Ok(J::Null);
            }
            if let Some((c, b)) = &psc {
                let n = self.env.process(a, c, b.as_deref(), Opt { over: true, ..Opt::new() })?;
                if self.env.process(a, c, b.as_deref(), Opt::new()).is_err() {
                    // Whether protected terms may be overridden here.
                    self.env.unspec()
                }
                return self.value(&n, ap.unwrap(), el);
            }
            return self.value(a, ap.unwrap(), el);
        }
        if let J::Arr(items) = el {
            let mut r = vec![];
            for i in items {
                let mut e = self.element(a, ap, i, from_map)?;
                if e.is_arr() && def.map(|d| d.has("@list")).unwrap_or(false) {
                    e = J::Obj(vec![("@list".to_string(), e)]);
                }
                match e {
                    J::Arr(v) => r.extend(v),
                    J::Null => (),
                    x => r.push(x),
                }
            }
            return Ok(J::Arr(r));
        }
        let mut a: Ctx = a.clone();
        if let (Some(p), false) = (a.prev.clone(), from_map) {
            let keys: Vec<String> = el.sorted_keys();
            let has_value = keys.iter().any(|k| self.iri(&a, k, true, false).as_deref() == Some("@value"));
            let only_id = keys.len() == 1 && self.iri(&a, &keys[0], true, false).as_deref() == Some("@id");
            if !has_value && !only_id {
                a = (*p).clone();
            }
        }
        if let Some((c, b)) = &psc {
            a = self.env.process(&a, c, b.as_deref(), Opt { over: true, ..Opt::new() })?;
        }
        if let Some(c) = el.get("@context") {
            a = self.env.process(&a, c, self.base.as_deref(), Opt::new())?;
        }
        let type_ctx = a.clone();
        let mut input_type = None;
        for k in el.sorted_keys() {
            if self.iri(&a, &k, true, false).as_deref() == Some("@type") {
                let v = el.get(&k).unwrap();
                if input_type.is_none() {
                    if let Some(t) = v.as_items().last().and_then(|x| x.str()) {
                        input_type = Some(self.iri(&type_ctx, t, true, true).unwrap_or_default());
                    }
                }
                let mut ts: Vec<String> =
                    v.as_items().iter().filter_map(|x| x.str().map(|s| s.to_string())).collect();
                sort_strings(&mut ts);
                for t in &ts {
                    if let Some(d) = type_ctx.def(t) {
                        if let Some(c) = &d.ctx {
                            let b = d.base_url.clone();
                            a = self.env.process(&a, c, b.as_deref(), Opt { propagate: false, ..Opt::new() })?;
                        }
                    }
                }
            }
        }
        let f = Frame { ap, type_ctx, input_type };
        let ks: Vec<Option<String>> = el.sorted_keys().iter().map(|k| self.iri(&a, k, true, false)).collect();
        let has = |x: &str| ks.iter().any(|k| k.as_deref() == Some(x));
        if has("@value") {
            for k in el.sorted_keys() {
                let x = self.iri(&a, &k, true, false).unwrap_or_default();
                let v = el.get(&k).unwrap();
                if x == "@nest"
                    || x == "@reverse"
                    || x == "@type" && *v == J::Arr(vec![])
                    || x.contains(':') && v.is_null()
                {
                    // Entries with no value beside `@value`.
                    self.env.unspec()
                }
            }
        }
        let mut r = J::Obj(vec![]);
        self.entries(&a, &f, el, &mut r)?;
        if !has("@value") && (has("@language") || has("@direction")) {
            // Value object entries on something that is not a value object:
            // defined for `@language` alone.
            let live = ks.iter().flatten().filter(|k| *k != "@context" && (is_keyword(k) || k.contains(':')));
            if live.count() != 1 || has("@direction") {
                self.env.unspec()
            }
        }
        if f.input_type.as_deref() == Some("@json") && !r.has("@value") {
            self.env.unspec()
        }

        if let Some(v) = r.get("@value") {
            let allowed = ["@direction", "@index", "@language", "@type", "@value"];
            if r.obj().unwrap().iter().any(|(k, _)| !allowed.contains(&k.as_str())) {
                return Err(E::InvalidValueObject);
            }
            if r.has("@type") && (r.has("@language") || r.has("@direction")) {
                return Err(E::InvalidValueObject);
            }
            let is_json = match r.get("@type") {
                Some(J::Str(t)) => t == "@json",
                Some(J::Arr(t)) => t.len() == 1 && t[0] == s("@json"),
                _ => false,
            };
            if is_json {
            } else if v.is_null() || *v == J::Arr(vec![]) {
                return Ok(J::Null);
            } else if v.str().is_none() && r.has("@language") {
                return Err(E::InvalidLanguageTaggedValue);
            } else if v.str().is_none() && r.has("@direction") {
                self.env.unspec()
            } else if let Some(t) = r.get("@type") {
                match t {
                    J::Str(t) if is_iri(t) => (),
                    _ => return Err(E::InvalidTypedValue),
                }
            }
        } else if let Some(t) = r.get("@type") {
            if !t.is_arr() {
                let t = r.remove("@type").unwrap();
                r.set("@type", J::Arr(vec![t]));
            }
        } else if r.has("@set") || r.has("@list") {
            let n = r.obj().unwrap().len();
            if n > 2 || n == 2 && !r.has("@index") {
                return Err(E::InvalidSetOrListObject);
            }
            if let Some(x) = r.remove("@set") {
                if x.is_null() || x.is_arr() {
                    // A set: continue with its value.
                    return Ok(x);
                }
                r = x;
            }
        }
        if let J::Obj(o) = &r {
            if o.len() == 1 && o[0].0 == "@language" {
                return Ok(J::Null);
            }
            if ap.is_none() || ap == Some("@graph") {
                if o.is_empty() || r.has("@value") || r.has("@list") || (o.len() == 1 && o[0].0 == "@id") {
                    return Ok(J::Null);
                }
            }
        }
        Ok(r)
    }

    /// Steps 13 and 14.
    fn entries(&self, a: &Ctx, f: &Frame, el: &J, r: &mut J) -> R<()> {
        let mut nests: Vec<String> = vec![];
        for key in el.sorted_keys() {
            let value = el.get(&key).unwrap();
            if key == "@context" {
                continue;
            }
            let ep = match self.iri(a, &key, true, false) {
                Some(p) if p.contains(':') || is_keyword(&p) => p,
                _ => continue,
            };
            if is_keyword(&ep) {
                self.keyword(a, f, &key, &ep, value, r, &mut nests)?;
                continue;
            }
            if !is_iri(&ep) && !is_blank(&ep) {
                // Not an IRI after all (a space, say).
                self.env.unspec()
            }
            let empty = Def::default();
            let d = a.def(&key).unwrap_or(&empty);
            let mut ev;
            if d.ty.as_deref() == Some("@json") {
                ev = J::Obj(vec![("@value".to_string(), value.clone()), ("@type".to_string(), s("@json"))]);
            } else if d.has("@language") && value.is_obj() {
                let dr = match d.dir {
                    Some(x) => x,
                    None => a.dir,
                };
                let mut v = vec![];
                for l in value.sorted_keys() {
                    for item in value.get(&l).unwrap().as_items() {
                        if item.is_null() {
                            continue;
                        }
                        if item.str().is_none() {
                            return Err(E::InvalidLanguageMapValue);
                        }
                        let mut o = J::Obj(vec![("@value".to_string(), item.clone())]);
                        if l != "@none" && self.iri(a, &l, true, false).as_deref() != Some("@none") {
                            o.set("@language", s(&l));
                        }
                        if let Some(x) = dr {
                            o.set("@direction", s(x.as_str()));
                        }
                        v.push(o);
                    }
                }
                ev = J::Arr(v);
            } else if (d.has("@index") || d.has("@type") || d.has("@id")) && value.is_obj() {
                ev = self.index_map(a, &key, d, value)?;
            } else {
                ev = self.element(a, Some(&key), value, false)?;
            }
            if ev.is_null() {
                continue;
            }
            if d.has("@list") && !is_list(&ev) {
                ev = J::Obj(vec![("@list".to_string(), J::Arr(ev.into_arr()))]);
            }
            if d.has("@graph") && !d.has("@id") && !d.has("@index") {
                ev = J::Arr(
                    ev.into_arr()
                        .into_iter()
                        .map(|x| J::Obj(vec![("@graph".to_string(), J::Arr(x.into_arr()))]))
                        .collect(),
                );
            }
            if d.reverse {
                for item in ev.into_arr() {
                    if is_value(&item) || is_list(&item) {
                        return Err(E::InvalidReversePropertyValue);
                    }
                    add_reverse(r, &ep, item);
                }
            } else {
                r.add_value(&ep, ev, true);
            }
        }
        sort_strings(&mut nests);
        for nk in nests {
            let nv = el.get(&nk).unwrap();
            for v in nv.as_items() {
                if !v.is_obj() {
                    return Err(E::InvalidNestValue);
                }
                for k in v.sorted_keys() {
                    if self.iri(a, &k, true, false).as_deref() == Some("@value") {
                        return Err(E::InvalidNestValue);
                    }
                }
                for k in v.sorted_keys() {
                    let x = self.iri(a, &k, true, false);
                    if ["@list", "@set", "@language", "@direction", "@context"].iter().any(|y| x.as_deref() == Some(*y)) {
                        self.env.unspec()
                    }
                }
                // The context of a nesting term scopes its entries.
                let scoped = match a.def(&nk).and_then(|d| d.ctx.clone().map(|c| (c, d.base_url.clone()))) {
                    Some((c, b)) => {
                        Some(self.env.process(a, &c, b.as_deref(), Opt { over: true, ..Opt::new() })?)
                    }
                    None => None,
                };
                self.entries(scoped.as_ref().unwrap_or(a), f, v, r)?;
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    fn keyword(
        &self,
        a: &Ctx,
        f: &Frame,
        key: &str,
        ep: &str,
        value: &J,
        r: &mut J,
        nests: &mut Vec<String>,
    ) -> R<()> {
        if f.ap == Some("@reverse") {
            return Err(E::InvalidReversePropertyMap);
        }
        if ep == "@reverse" && r.has(ep) {
            // The entry may stem from a reverse property before it.
            self.env.unspec()
        } else if r.has(ep) && (self.env.mode10 || ep != "@included" && ep != "@type") {
            return Err(E::CollidingKeywords);
        }
        let ev = match ep {
            "@id" => {
                let v = value.str().ok_or(E::InvalidIdValue)?;
                match self.iri(a, v, false, true) {
                    Some(x) => J::Str(x),
                    None => J::Null,
                }
            }
            "@type" => {
                let ok = match value {
                    J::Str(_) => true,
                    J::Arr(x) => x.iter().all(|x| x.str().is_some()),
                    _ => false,
                };
                if !ok {
                    return Err(E::InvalidTypeValue);
                }
                for x in value.as_items() {
                    let e = self.iri(&f.type_ctx, x.str().unwrap(), true, true);
                    // A keyword as the type of a node.
                    if e.map(|e| is_keyword(&e)).unwrap_or(true) && f.input_type.as_deref() != Some("@json") {
                        self.env.unspec()
                    }
                }
                let one = |x: &J| match self.iri(&f.type_ctx, x.str().unwrap(), true, true) {
                    Some(x) => J::Str(x),
                    None => J::Null,
                };
                let mut v = match value {
                    J::Arr(x) => J::Arr(x.iter().map(one).collect()),
                    x => one(x),
                };
                if let Some(old) = r.remove("@type") {
                    let mut o = old.into_arr();
                    o.extend(v.into_arr());
                    v = J::Arr(o);
                }
                v
            }
            "@graph" => {
                let e = self.element(a, Some("@graph"), value, false)?;
                J::Arr(if e.is_null() { vec![] } else { e.into_arr() })
            }
            "@included" => {
                if self.env.mode10 {
                    return Ok(());
                }
                let e = self.element(a, Some("@included"), value, false)?;
                let e = if e.is_null() { vec![] } else { e.into_arr() };
                for x in &e {
                    if !x.is_obj() || is_value(x) || is_list(x) {
                        return Err(E::InvalidIncludedValue);
                    }
                }
                let mut all = match r.remove("@included") {
                    Some(o) => o.into_arr(),
                    None => vec![],
                };
                all.extend(e);
                J::Arr(all)
            }
            "@value" => {
                let v = if f.input_type.as_deref() == Some("@json") {
                    if self.env.mode10 {
                        return Err(E::InvalidValueObjectValue);
                    }
                    value.clone()
                } else if value.is_scalar() || value.is_null() {
                    value.clone()
                } else {
                    return Err(E::InvalidValueObjectValue);
                };
                r.set("@value", v);
                return Ok(());
            }
            "@language" => {
                if value.str().is_none() {
                    return Err(E::InvalidLanguageTaggedString);
                }
                if value.str() == Some("@none") {
                    self.env.unspec()
                }
                value.clone()
            }
            "@direction" => {
                if self.env.mode10 {
                    return Ok(());
                }
                match value {
                    J::Str(x) if x == "ltr" || x == "rtl" => value.clone(),
                    J::Null => {
                        // The syntax allows null, the algorithm does not.
                        self.env.unspec();
                        return Ok(());
                    }
                    _ => return Err(E::InvalidBaseDirection),
                }
            }
            "@index" => {
                if value.str().is_none() {
                    return Err(E::InvalidIndexValue);
                }
                value.clone()
            }
            "@list" => {
                if f.ap.is_none() || f.ap == Some("@graph") {
                    // A free-floating list: dropped, whatever is beside it.
                    self.env.unspec();
                    return Ok(());
                }
                let e = self.element(a, f.ap, value, false)?;
                if e.is_null() {
                    J::Arr(vec![])
                } else {
                    J::Arr(e.into_arr())
                }
            }
            "@set" => {
                let e = self.element(a, f.ap, value, false)?;
                if e.is_null() {
                    self.env.unspec()
                }
                e
            }
            "@reverse" => {
                if !value.is_obj() {
                    return Err(E::InvalidReverseValue);
                }
                if a.prev.is_some() || value.has("@context") {
                    // Whether the map is a new node object.
                    self.env.unspec()
                }
                let mut e = self.element(a, Some("@reverse"), value, false)?;
                if let Some(J::Obj(back)) = e.remove("@reverse") {
                    for (p, items) in back {
                        r.add_value(&p, items, true);
                    }
                }
                if let J::Obj(o) = e {
                    for (p, items) in o {
                        for item in items.into_arr() {
                            if is_value(&item) || is_list(&item) {
                                return Err(E::InvalidReversePropertyValue);
                            }
                            add_reverse(r, &p, item);
                        }
                    }
                }
                return Ok(());
            }
            "@nest" => {
                if !nests.iter().any(|x| x == key) {
                    nests.push(key.to_string());
                }
                return Ok(());
            }
            _ => {
                // A keyword with no meaning here.
                self.env.unspec();
                return Ok(());
            }
        };
        if !ev.is_null() && !(ep == "@type" && ev == J::Arr(vec![])) {
            r.set(ep, ev);
        }
        Ok(())
    }

    fn index_map(&self, a: &Ctx, key: &str, d: &Def, value: &J) -> R<J> {
        let mut v = vec![];
        let index_key = d.index.clone().unwrap_or("@index".to_string());
        for index in value.sorted_keys() {
            let iv = value.get(&index).unwrap();
            let mut map_ctx: Ctx = a.clone();
            if d.has("@id") || d.has("@type") {
                if let Some(p) = &a.prev {
                    map_ctx = (**p).clone();
                }
            }
            if d.has("@type") {
                if let Some(td) = map_ctx.def(&index).cloned() {
                    if let Some(c) = &td.ctx {
                        map_ctx = self.env.process(
                            &map_ctx,
                            c,
                            td.base_url.as_deref(),
                            Opt { propagate: true, ..Opt::new() },
                        )?;
                    }
                }
            }
            let expanded_index = self.iri(a, &index, true, false);
            let none = expanded_index.as_deref() == Some("@none");
            let iv = J::Arr(iv.clone().into_arr());
            let items = self.element(&map_ctx, Some(key), &iv, true)?;
            for mut item in items.into_arr() {
                if d.has("@graph") && !is_graph(&item) {
                    item = J::Obj(vec![("@graph".to_string(), J::Arr(vec![item]))]);
                }
                if d.has("@type") && expanded_index.as_ref().map(|x| is_keyword(x)).unwrap_or(true) && !none {
                    self.env.unspec()
                }
                // Node entries cannot be added to values and lists.
                if is_value(&item) || is_list(&item) {
                    if d.has("@id") || d.has("@type") || (is_list(&item) && index_key != "@index") {
                        self.env.unspec()
                    }
                }
                if d.has("@index") && index_key != "@index" && !none {
                    let re = self.value(a, &index_key, &s(&index))?;
                    let ik = self.iri(a, &index_key, true, false).unwrap_or_default();
                    let mut vals = vec![re];
                    if let Some(old) = item.remove(&ik) {
                        vals.extend(old.into_arr());
                    }
                    item.set(&ik, J::Arr(vals));
                    if is_value(&item) {
                        return Err(E::InvalidValueObject);
                    }
                } else if d.has("@index") && !item.has("@index") && !none {
                    item.set("@index", s(&index));
                } else if d.has("@id") && !item.has("@id") && !none {
                    if let Some(x) = self.iri(a, &index, false, true) {
                        item.set("@id", J::Str(x));
                    }
                } else if d.has("@type") && !none {
                    let mut t = match &expanded_index {
                        Some(x) => vec![s(x)],
                        None => vec![],
                    };
                    if let Some(old) = item.remove("@type") {
                        t.extend(old.into_arr());
                    }
                    item.set("@type", J::Arr(t));
                }
                v.push(item);
            }
        }
        Ok(J::Arr(v))
    }

    fn value(&self, a: &Ctx, ap: &str, v: &J) -> R<J> {
        let empty = Def::default();
        let d = a.def(ap).unwrap_or(&empty);
        if let J::Str(x) = v {
            if d.ty.as_deref() == Some("@id") {
                return Ok(id_obj(self.iri(a, x, false, true)));
            }
            if d.ty.as_deref() == Some("@vocab") {
                return Ok(id_obj(self.iri(a, x, true, true)));
            }
        }
        let mut r = J::Obj(vec![("@value".to_string(), v.clone())]);
        match d.ty.as_deref() {
            Some("@id") | Some("@vocab") | Some("@none") | None => {
                let typed = false;
                if v.str().is_some() && !typed {
                    let l = match &d.lang {
                        Some(l) => l.clone(),
                        None => a.lang.clone(),
                    };
                    let x = match &d.dir {
                        Some(x) => *x,
                        None => a.dir,
                    };
                    if let Some(l) = l {
                        r.set("@language", J::Str(l));
                    }
                    if let Some(x) = x {
                        r.set("@direction", s(x.as_str()));
                    }
                }
            }
            Some(t) => r.set("@type", s(t)),
        }
        Ok(r)
    }
}

fn id_obj(x: Option<String>) -> J {
    J::Obj(vec![(
        "@id".to_string(),
        match x {
            Some(x) => J::Str(x),
            None => J::Null,
        },
    )])
}

fn add_reverse(r: &mut J, p: &str, item: J) {
    let mut m = r.remove("@reverse").unwrap_or(J::Obj(vec![]));
    m.add_value(p, item, true);
    r.set("@reverse", m);
}
