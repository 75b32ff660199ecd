//! Compaction (JSON-LD 1.1 API, section 6 and 7).
use super::ctx::*;
use super::expand::is_graph;
use super::json::*;
use iref::Iri;

/// The inverse context: IRI -> container -> @language/@type/@any -> value -> term.
struct Inv {
    e: Vec<(String, String, &'static str, String, String)>,
}
impl Inv {
    fn get(&self, var: &str, cont: &str, tl: &str, v: &str) -> Option<&str> {
        self.e
            .iter()
            .find(|x| x.0 == var && x.1 == cont && x.2 == tl && x.3 == v)
            .map(|x| x.4.as_str())
    }
    fn has(&self, var: &str) -> bool {
        self.e.iter().any(|x| x.0 == var)
    }
    fn add(&mut self, var: &str, cont: &str, tl: &'static str, v: &str, term: &str) {
        if self.get(var, cont, tl, v).is_none() {
            self.e.push((var.to_string(), cont.to_string(), tl, v.to_string(), term.to_string()))
        }
    }
}
fn low(s: &str) -> String {
    s.to_ascii_lowercase()
}
fn lang_dir(l: Option<&str>, d: Option<Dir>) -> String {
    let mut s = low(l.unwrap_or(""));
    if let Some(d) = d {
        s.push('_');
        s.push_str(d.as_str());
    }
    s
}

fn inverse(a: &Ctx) -> Inv {
    let mut r = Inv { e: vec![] };
    let default = a.lang.as_deref().map(low).unwrap_or("@none".to_string());
    let mut terms: Vec<&(String, Def)> = a.terms.iter().collect();
    for i in 1..terms.len() {
        let mut j = i;
        while j > 0 && (terms[j].0.len(), &terms[j].0) < (terms[j - 1].0.len(), &terms[j - 1].0) {
            terms.swap(j, j - 1);
            j -= 1;
        }
    }
    for (t, d) in terms {
        let var = match &d.iri {
            Some(i) => i,
            None => continue,
        };
        let mut c = d.container.clone();
        sort_strings(&mut c);
        let c = if c.is_empty() { "@none".to_string() } else { c.concat() };
        r.add(var, &c, "@any", "@none", t);
        if d.reverse {
            r.add(var, &c, "@type", "@reverse", t);
        } else if d.ty.as_deref() == Some("@none") {
            r.add(var, &c, "@type", "@any", t);
            r.add(var, &c, "@language", "@any", t);
        } else if let Some(ty) = &d.ty {
            r.add(var, &c, "@type", ty, t);
        } else if let (Some(l), Some(dir)) = (&d.lang, &d.dir) {
            let v = match (l, dir) {
                (None, None) => "@null".to_string(),
                _ => lang_dir(l.as_deref(), *dir),
            };
            r.add(var, &c, "@language", &v, t);
        } else if let Some(l) = &d.lang {
            let v = l.as_deref().map(low).unwrap_or("@null".to_string());
            r.add(var, &c, "@language", &v, t);
        } else if let Some(dir) = &d.dir {
            let v = match dir {
                Some(_) => lang_dir(None, *dir),
                None => "@none".to_string(),
            };
            r.add(var, &c, "@language", &v, t);
        } else {
            let v = if a.dir.is_some() { lang_dir(a.lang.as_deref(), a.dir) } else { default.clone() };
            r.add(var, &c, "@language", &v, t);
            r.add(var, &c, "@language", "@none", t);
            r.add(var, &c, "@type", "@none", t);
        }
    }
    r
}

fn simple_graph(j: &J) -> bool {
    is_graph(j) && !j.has("@id")
}

pub struct Compactor<'a> {
    pub env: &'a Env,
    pub compact_arrays: bool,
}

impl Compactor<'_> {
    /// IRI compaction.
    pub fn iri(&self, a: &Ctx, var: &str, value: Option<&J>, vocab: bool, reverse: bool) -> R<String> {
        let inv = inverse(a);
        if vocab && inv.has(var) {
            let dl = match a.dir {
                Some(_) => lang_dir(a.lang.as_deref(), a.dir),
                None => a.lang.as_deref().map(low).unwrap_or("@none".to_string()),
            };
            let mut cs: Vec<&str> = vec![];
            let mut tl = "@language";
            let mut tlv = "@null".to_string();
            let has = |k: &str| value.map_or(false, |v| v.has(k));
            let graph = value.map_or(false, is_graph);
            if has("@index") && !graph {
                cs.extend(["@index", "@index@set"]);
            }
            if reverse {
                tl = "@type";
                tlv = "@reverse".to_string();
                cs.push("@set");
            } else if has("@list") {
                if !has("@index") {
                    cs.push("@list")
                }
                let list = value.unwrap().get("@list").unwrap().as_items();
                let (mut cl, mut ct): (Option<String>, Option<String>) = (None, None);
                if list.is_empty() {
                    cl = Some(dl)
                }
                for i in &list {
                    let (mut il, mut it) = ("@none".to_string(), "@none".to_string());
                    if i.has("@value") {
                        let l = i.get("@language").and_then(|l| l.str());
                        if i.has("@direction") {
                            il = lang_dir(l, dir(i.get("@direction").unwrap())?)
                        } else if let Some(l) = l {
                            il = low(l)
                        } else if let Some(t) = i.get("@type") {
                            it = t.str().unwrap().to_string()
                        } else {
                            il = "@null".to_string()
                        }
                    } else {
                        it = "@id".to_string()
                    }
                    match &cl {
                        None => cl = Some(il),
                        Some(c) if *c != il && i.has("@value") => cl = Some("@none".to_string()),
                        _ => (),
                    }
                    match &ct {
                        None => ct = Some(it),
                        Some(c) if *c != it => ct = Some("@none".to_string()),
                        _ => (),
                    }
                }
                let none = "@none".to_string();
                let (cl, ct) = (cl.unwrap_or(none.clone()), ct.unwrap_or(none));
                if ct != "@none" {
                    tl = "@type";
                    tlv = ct
                } else {
                    tlv = cl
                }
            } else if graph {
                if has("@index") {
                    cs.extend(["@graph@index", "@graph@index@set"]);
                }
                if has("@id") {
                    cs.extend(["@graph@id", "@graph@id@set"]);
                }
                cs.extend(["@graph", "@graph@set", "@set"]);
                if !has("@index") {
                    cs.extend(["@graph@index", "@graph@index@set"]);
                }
                if !has("@id") {
                    cs.extend(["@graph@id", "@graph@id@set"]);
                }
                cs.extend(["@index", "@index@set"]);
                tl = "@type";
                tlv = "@id".to_string();
            } else {
                if has("@value") {
                    let v = value.unwrap();
                    let l = v.get("@language").and_then(|l| l.str());
                    if v.has("@direction") && !has("@index") {
                        tlv = lang_dir(l, dir(v.get("@direction").unwrap())?);
                        cs.extend(["@language", "@language@set"]);
                    } else if l.is_some() && !has("@index") {
                        tlv = low(l.unwrap());
                        cs.extend(["@language", "@language@set"]);
                    } else if let Some(t) = v.get("@type") {
                        tl = "@type";
                        tlv = t.str().unwrap().to_string();
                    }
                } else {
                    tl = "@type";
                    tlv = "@id".to_string();
                    cs.extend(["@id", "@id@set", "@type", "@set@type"]);
                }
                cs.push("@set");
            }
            cs.push("@none");
            if !self.env.mode10 && !has("@index") {
                cs.extend(["@index", "@index@set"]);
            }
            if !self.env.mode10 && has("@value") && value.unwrap().obj().unwrap().len() == 1 {
                cs.extend(["@language", "@language@set"]);
            }
            let mut pv: Vec<String> = vec![];
            if tlv == "@reverse" {
                pv.push(tlv.clone());
            }
            if (tlv == "@id" || tlv == "@reverse") && has("@id") {
                let id = value.unwrap().get("@id").unwrap().str().unwrap();
                let c = self.iri(a, id, None, true, false)?;
                if a.def(&c).map_or(false, |d| d.iri.as_deref() == Some(id)) {
                    pv.extend(["@vocab".to_string(), "@id".to_string(), "@none".to_string()]);
                } else {
                    pv.extend(["@id".to_string(), "@vocab".to_string(), "@none".to_string()]);
                }
            } else {
                pv.extend([tlv, "@none".to_string()]);
                if has("@list") && value.unwrap().get("@list").unwrap().as_items().is_empty() {
                    tl = "@any"
                }
            }
            pv.push("@any".to_string());
            if let Some(u) = pv.iter().find(|p| p.contains('_') && !is_iri(p) && !is_blank(p)) {
                let u = u[u.find('_').unwrap()..].to_string();
                pv.push(u);
            }
            for c in &cs {
                // Container names, concatenated in order.
                for p in &pv {
                    if let Some(t) = inv.get(var, c, tl, p) {
                        return Ok(t.to_string());
                    }
                }
            }
        }
        if vocab {
            if let Some(v) = &a.vocab {
                if let Some(s) = var.strip_prefix(v.as_str()) {
                    if !s.is_empty() && a.def(s).is_none() {
                        return Ok(s.to_string());
                    }
                }
            }
        }
        let mut best: Option<String> = None;
        for (t, d) in &a.terms {
            let iri = match &d.iri {
                Some(i) if d.prefix && i != var => i,
                _ => continue,
            };
            let s = match var.strip_prefix(iri.as_str()) {
                Some(s) => s,
                None => continue,
            };
            let c = format2(&format2(t, ":"), s);
            let better = match &best {
                None => true,
                Some(b) => c.len() < b.len() || c.len() == b.len() && c < *b,
            };
            let free = match a.def(&c) {
                None => true,
                Some(d) => d.iri.as_deref() == Some(var) && value.is_none(),
            };
            if better && free {
                best = Some(c)
            }
        }
        if let Some(b) = best {
            return Ok(b);
        }
        if let Ok(i) = Iri::new(var) {
            if i.authority().is_none() && a.def(i.scheme().as_str()).map_or(false, |d| d.prefix) {
                return Err(E::IriConfusedWithPrefix);
            }
            if let (false, Some(b)) = (vocab, &a.base) {
                let r = i.relative_to(Iri::new(b.as_str()).unwrap()).to_string();
                return Ok(if keyword_form(&r) { format2("./", &r) } else { r });
            }
        }
        Ok(var.to_string())
    }
    fn vocab(&self, a: &Ctx, var: &str) -> R<String> {
        self.iri(a, var, None, true, false)
    }

    /// Value compaction.
    fn value(&self, a: &Ctx, ap: Option<&str>, v: &J) -> R<J> {
        let d = ap.and_then(|p| a.def(p));
        let lang = d.and_then(|d| d.lang.clone()).unwrap_or(a.lang.clone());
        let di = d.and_then(|d| d.dir).unwrap_or(a.dir);
        let ty = d.and_then(|d| d.ty.as_deref());
        let entries = v.obj().unwrap();
        if v.has("@id") && entries.iter().all(|(k, _)| k == "@id" || k == "@index") {
            let id = v.get("@id").unwrap().str().unwrap();
            if ty == Some("@id") {
                return Ok(J::Str(self.iri(a, id, None, false, false)?));
            }
            if ty == Some("@vocab") {
                return Ok(J::Str(self.vocab(a, id)?));
            }
            return Ok(v.clone());
        }
        let value = match v.get("@value") {
            Some(v) => v,
            None => return Ok(v.clone()),
        };
        let vty = v.get("@type").and_then(|t| t.str());
        let keeps_index = v.has("@index") && !d.map_or(false, |d| d.has("@index"));
        if vty.is_some() && vty == ty {
            // The specification drops the index here; keeping it is what lets
            // the compaction be reversed.
            if keeps_index && ty != Some("@json") && !self.env.loses() {
                return Ok(v.clone());
            }
            return Ok(value.clone());
        }
        if ty == Some("@none") || vty.is_some() {
            return Ok(v.clone());
        }
        // Coercion would change the value when it is expanded again.
        if ty.is_some() && !self.env.loses() {
            return Ok(v.clone());
        }
        if keeps_index {
            return Ok(v.clone());
        }
        if !matches!(value, J::Str(_)) {
            return Ok(value.clone());
        }
        let l = v.get("@language").and_then(|l| l.str()).map(low);
        let vd = match v.get("@direction") {
            Some(d) => dir(d)?,
            None => None,
        };
        if l == lang.as_deref().map(low) && vd == di {
            return Ok(value.clone());
        }
        Ok(v.clone())
    }

    fn scoped(&self, a: &Ctx, d: &Def, over: bool, propagate: bool) -> R<Ctx> {
        let o = Opt { over, propagate, ..Opt::new() };
        self.env.process(a, d.ctx.as_ref().unwrap(), d.base_url.as_deref(), o)
    }

    pub fn element(&self, active: &Ctx, ap: Option<&str>, el: &J) -> R<J> {
        let type_scoped = active;
        if el.is_scalar() || el.is_null() {
            return Ok(el.clone());
        }
        if let J::Arr(v) = el {
            let mut r = vec![];
            for x in v {
                let x = self.element(active, ap, x)?;
                if !x.is_null() {
                    r.push(x)
                }
            }
            let keep = ap.and_then(|p| active.def(p)).map_or(false, |d| d.has("@list") || d.has("@set"));
            if r.len() != 1 || !self.compact_arrays || ap == Some("@graph") || ap == Some("@set") || keep {
                return Ok(J::Arr(r));
            }
            return Ok(r.pop().unwrap());
        }
        let mut a = active.clone();
        if let Some(p) = &active.prev {
            if !el.has("@value") && !(el.has("@id") && el.obj().unwrap().len() == 1) {
                a = (**p).clone();
            }
        }
        // An erratum has the definition looked up in the type-scoped context.
        if let Some(p) = ap {
            let (x, y) = (a.def(p).and_then(|d| d.ctx.clone()), type_scoped.def(p).and_then(|d| d.ctx.clone()));
            if x != y {
                self.env.unspec()
            }
            if let Some(d) = type_scoped.def(p).cloned() {
                if d.ctx.is_some() {
                    a = self.scoped(&a, &d, true, true)?;
                }
            }
        }
        if el.has("@value") || el.has("@id") {
            let v = self.value(&a, ap, el)?;
            if v != *el {
                return Ok(v);
            }
        }
        if let (Some(l), true) = (el.get("@list"), ap.and_then(|p| a.def(p)).map_or(false, |d| d.has("@list"))) {
            return self.element(&a, ap, l);
        }
        let inside_reverse = ap == Some("@reverse");
        let mut result = J::Obj(vec![]);
        if let (Some(ts), false) = (el.get("@type"), el.has("@value")) {
            let mut v = vec![];
            for t in ts.as_items() {
                let t = t.str().unwrap();
                let x = self.vocab(&a, t)?;
                if x != self.vocab(type_scoped, t)? {
                    // Which context to use here is not clear.
                    self.env.unspec()
                }
                v.push(x);
            }
            sort_strings(&mut v);
            for t in v {
                if let Some(d) = type_scoped.def(&t).cloned() {
                    if d.ctx.is_some() {
                        a = self.scoped(&a, &d, false, false)?;
                    }
                }
            }
        }
        for (ep, ev) in el.obj().unwrap() {
            match ep.as_str() {
                "@id" => {
                    let v = self.iri(&a, ev.str().unwrap(), None, false, false)?;
                    let k = self.vocab(&a, ep)?;
                    result.set(&k, J::Str(v));
                }
                "@type" => {
                    let v = match ev {
                        J::Str(t) => J::Str(self.vocab(if el.has("@value") { &a } else { type_scoped }, t)?),
                        _ => {
                            let mut v = vec![];
                            for t in ev.as_items() {
                                v.push(J::Str(self.vocab(type_scoped, t.str().unwrap())?));
                            }
                            if v.is_empty() {
                                continue;
                            }
                            J::Arr(v)
                        }
                    };
                    let k = self.vocab(&a, ep)?;
                    let set = a.def(&k).map_or(false, |d| d.has("@set")) && !self.env.mode10;
                    if el.has("@value") {
                        // An array there would not be a valid value object.
                        if (set || !self.compact_arrays) && self.env.loses() {
                            result.add_value(&k, v, true)
                        } else {
                            result.set(&k, v)
                        }
                    } else {
                        result.add_value(&k, v, set || !self.compact_arrays);
                    }
                }
                "@reverse" if el.has("@value") => (),
                "@reverse" => {
                    if a.prev.is_some() {
                        // Taken literally, the contexts of the types would not
                        // apply to reverse properties.
                        self.env.unspec()
                    }
                    if a.def("@reverse").is_some() {
                        self.env.unspec()
                    }
                    let mut m = J::Obj(vec![]);
                    for (k, v) in ev.obj().unwrap() {
                        self.property(&a, &mut m, k, v, true)?;
                    }
                    for (k, v) in m.clone().obj().unwrap() {
                        if let Some(d) = a.def(k) {
                            if d.reverse {
                                let arr = d.has("@set") || !self.compact_arrays;
                                result.add_value(k, v.clone(), arr);
                                m.remove(k);
                            }
                        }
                    }
                    if !m.obj().unwrap().is_empty() {
                        let k = self.vocab(&a, ep)?;
                        result.set(&k, m);
                    }
                }
                "@index" => {
                    if ap.and_then(|p| a.def(p)).map_or(false, |d| d.has("@index")) {
                        continue;
                    }
                    let k = self.vocab(&a, ep)?;
                    result.set(&k, ev.clone());
                }
                "@value" | "@language" | "@direction" => {
                    let k = self.vocab(&a, ep)?;
                    result.set(&k, ev.clone());
                }
                _ => self.property(&a, &mut result, ep, ev, inside_reverse)?,
            }
        }
        Ok(result)
    }

    /// Where a property's values go.
    fn nest<'r>(&self, a: &Ctx, r: &'r mut J, p: &str) -> R<&'r mut J> {
        if let Some(n) = a.def(p).and_then(|d| d.nest.clone()) {
            if n != "@nest" && a.def(&n).map_or(true, |d| d.iri.as_deref() != Some("@nest")) {
                return Err(E::InvalidNestValue);
            }
            if !r.has(&n) {
                r.set(&n, J::Obj(vec![]));
            }
            return Ok(r.get_mut(&n).unwrap());
        }
        Ok(r)
    }

    fn property(&self, a: &Ctx, result: &mut J, ep: &str, ev: &J, rev: bool) -> R<()> {
        let items = ev.as_items();
        if items.is_empty() {
            let p = self.iri(a, ep, Some(ev), true, rev)?;
            self.nest(a, result, &p)?.add_value(&p, J::Arr(vec![]), true);
            return Ok(());
        }
        // Values that are in a map, and values that are not, under one term.
        let (mut mapped, mut plain) = (vec![], vec![]);
        for item in items {
            let p = self.iri(a, ep, Some(item), true, rev)?;
            let d = a.def(&p).cloned().unwrap_or_default();
            let arr = d.has("@set") || p == "@graph" || p == "@list" || !self.compact_arrays;
            let graph = is_graph(item);
            let el = match item.get("@list") {
                Some(l) => l,
                None if graph => item.get("@graph").unwrap(),
                None => item,
            };
            let mut ci = self.element(a, Some(&p), el)?;
            let nest = self.nest(a, result, &p)?;
            if item.has("@list") {
                ci = J::Arr(ci.into_arr());
                if !d.has("@list") {
                    let mut m = J::Obj(vec![]);
                    m.set(&self.vocab(a, "@list")?, ci);
                    if let Some(i) = item.get("@index") {
                        m.set(&self.vocab(a, "@index")?, i.clone());
                    }
                    plain.push(p.clone());
                    nest.add_value(&p, m, arr);
                } else {
                    if nest.has(&p) {
                        // The specification overwrites.
                        self.env.unspec()
                    }
                    nest.set(&p, ci);
                }
            } else if graph {
                let index = item.get("@index").and_then(|i| i.str());
                if d.has("@graph") && d.has("@id") {
                    let k = match item.get("@id") {
                        Some(i) => self.iri(a, i.str().unwrap(), None, false, false)?,
                        None => self.vocab(a, "@none")?,
                    };
                    mapped.push(p.clone());
                    self.map_object(nest, &p)?.add_value(&k, ci, arr);
                } else if d.has("@graph") && d.has("@index") && simple_graph(item) {
                    if index.is_none() && self.vocab(a, "@none")? != "@none" {
                        self.env.unspec()
                    }
                    let k = index.unwrap_or("@none").to_string();
                    mapped.push(p.clone());
                    self.map_object(nest, &p)?.add_value(&k, ci, arr);
                } else if d.has("@graph") && simple_graph(item) {
                    if let J::Arr(v) = &ci {
                        if v.len() > 1 {
                            let mut m = J::Obj(vec![]);
                            m.set(&self.vocab(a, "@included")?, ci);
                            ci = m
                        }
                    }
                    plain.push(p.clone());
                    nest.add_value(&p, ci, arr);
                } else {
                    let mut m = J::Obj(vec![]);
                    m.set(&self.vocab(a, "@graph")?, ci);
                    if let Some(i) = item.get("@id") {
                        let v = self.iri(a, i.str().unwrap(), None, false, false)?;
                        m.set(&self.vocab(a, "@id")?, J::Str(v));
                    }
                    if let Some(i) = index {
                        m.set(&self.vocab(a, "@index")?, s(i));
                    }
                    plain.push(p.clone());
                    nest.add_value(&p, m, arr);
                }
            } else if !d.has("@graph")
                && (d.has("@language") || d.has("@index") || d.has("@id") || d.has("@type"))
            {
                let mut key: Option<String> = None;
                if d.has("@language") && item.has("@value") {
                    ci = item.get("@value").unwrap().clone();
                    key = item.get("@language").and_then(|l| l.str()).map(|l| l.to_string());
                } else if d.has("@index") && d.index.is_none() {
                    key = item.get("@index").and_then(|l| l.str()).map(|l| l.to_string());
                } else if d.has("@index") {
                    let ix = d.index.as_ref().unwrap();
                    let full = self.env.expand_iri(a, ix, true, false).unwrap_or(ix.clone());
                    let ck = self.vocab(a, &full)?;
                    key = self.take_first(&mut ci, &ck);
                } else if d.has("@id") {
                    let ck = self.vocab(a, "@id")?;
                    key = ci.remove(&ck).and_then(|v| v.str().map(|v| v.to_string()));
                } else if d.has("@type") {
                    let ck = self.vocab(a, "@type")?;
                    key = self.take_first(&mut ci, &ck);
                    let only_id = matches!(&ci, J::Obj(o) if o.len() == 1) && item.has("@id");
                    if only_id && self.env.expand_iri(a, &ci.obj().unwrap()[0].0, true, false).as_deref() != Some("@id") {
                        // Whose key this is, is not said.
                        self.env.unspec()
                    }
                    if only_id {
                        let mut e = J::Obj(vec![]);
                        e.set("@id", item.get("@id").unwrap().clone());
                        ci = self.element(a, Some(&p), &e)?;
                    }
                }
                let key = match key {
                    Some(k) => k,
                    None => self.vocab(a, "@none")?,
                };
                mapped.push(p.clone());
                self.map_object(nest, &p)?.add_value(&key, ci, arr);
            } else {
                plain.push(p.clone());
                nest.add_value(&p, ci, arr);
            }
        }
        if mapped.iter().any(|m| plain.contains(m)) {
            self.env.unspec()
        }
        Ok(())
    }

    fn take_first(&self, ci: &mut J, k: &str) -> Option<String> {
        let v = ci.remove(k)?;
        let mut v = v.into_arr();
        if v.is_empty() {
            return None;
        }
        match v.remove(0) {
            J::Str(x) => {
                for y in v {
                    ci.add_value(k, y, false)
                }
                Some(x)
            }
            _ => {
                // Only strings can be keys.
                self.env.unspec();
                None
            }
        }
    }

    fn map_object<'r>(&self, nest: &'r mut J, p: &str) -> R<&'r mut J> {
        if !nest.has(p) {
            nest.set(p, J::Obj(vec![]));
        }
        if !nest.get(p).unwrap().is_obj() {
            // A mixture the specification did not foresee.
            self.env.unspec();
            nest.set(p, J::Obj(vec![]));
        }
        Ok(nest.get_mut(p).unwrap())
    }
}

/// The `compact()` operation on an expanded document; `base` is the base IRI
/// that identifiers are made relative to.
pub fn compact_document(
    env: &Env,
    expanded: &J,
    ctx: &J,
    url: Option<&str>,
    base: Option<&str>,
    compact_arrays: bool,
    to_relative: bool,
) -> R<J> {
    compact_document_in(env, expanded, ctx, url.or(base), url, base, compact_arrays, to_relative)
}
/// With a context that comes from a document.
pub fn compact_document_in(
    env: &Env,
    expanded: &J,
    ctx: &J,
    context_base: Option<&str>,
    url: Option<&str>,
    base: Option<&str>,
    compact_arrays: bool,
    to_relative: bool,
) -> R<J> {
    let inner = ctx.get("@context").unwrap_or(ctx);
    let mut a = env.process(&Ctx::new(None), inner, context_base, Opt::new())?;
    if base.is_some() {
        a.base = base.map(|s| s.to_string())
    } else if to_relative && a.base.is_none() {
        a.base = url.map(|s| s.to_string())
    }
    let c = Compactor { env, compact_arrays };
    let mut r = c.element(&a, None, expanded)?;
    if let J::Arr(v) = &r {
        r = if v.is_empty() {
            J::Obj(vec![])
        } else {
            let mut m = J::Obj(vec![]);
            m.set(&c.vocab(&a, "@graph")?, r);
            m
        }
    }
    let empty = match inner {
        J::Null => true,
        J::Arr(v) => v.is_empty(),
        J::Obj(v) => v.is_empty(),
        _ => false,
    };
    if !empty && r != J::Obj(vec![]) {
        r.set("@context", inner.clone());
    }
    Ok(r)
}
