//! Paths and edits: C09 .. C15
//!
//! The reference is an evaluator that first lists the places a path denotes (as child index
//! chains) and then applies the operation to those places one by one. It shares no code with
//! the recursive visitors of the code under test.
mod big;
mod lots;
mod names;
use crate::engine::*;
use crate::model::*;
use crate::util::*;
use std::sync::Arc;
use yaml_subset::YamlPath;
use yaml_subset::yaml::*;

// ------------------------------------------------------------------------------- paths

type Cond = (String, String);

#[derive(Debug, Clone, PartialEq)]
pub enum Step {
    Key(String, Vec<Cond>),
    Idx(Vec<usize>, Vec<Cond>),
    All(Vec<Cond>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Path {
    Root(Vec<Cond>),
    Steps(Vec<Step>),
}

fn conds_text(cs: &[Cond]) -> String {
    cs.iter().map(|(f, v)| format!("|{f}={v}")).collect()
}

impl Path {
    pub fn text(&self) -> String {
        match self {
            Path::Root(cs) => conds_text(cs),
            Path::Steps(steps) => {
                let mut s = String::new();
                for (i, st) in steps.iter().enumerate() {
                    match st {
                        Step::Key(k, cs) => {
                            if i > 0 {
                                s.push('.');
                            }
                            s.push_str(k);
                            s.push_str(&conds_text(cs));
                        }
                        Step::Idx(n, cs) => {
                            assert!(n.len() == 1);
                            s.push_str(&format!("[{}]{}", n[0], conds_text(cs)))
                        }
                        Step::All(cs) => s.push_str(&format!("[*]{}", conds_text(cs))),
                    }
                }
                s
            }
        }
    }
    pub fn real(&self) -> YamlPath {
        // the type of a condition has no public name: take one from a parsed path and fill it in
        macro_rules! cv {
            ($cs:expr) => {{
                let YamlPath::Root(template) = "|f=v".parse().expect("condition") else { panic!("condition") };
                $cs.iter()
                    .map(|(f, v): &Cond| {
                        let mut c = template[0].clone();
                        c.field = f.clone();
                        c.value = v.clone();
                        c
                    })
                    .collect::<Vec<_>>()
            }};
        }
        match self {
            Path::Root(cs) => YamlPath::Root(cv!(cs)),
            Path::Steps(steps) => {
                let mut rest: Option<Box<YamlPath>> = None;
                for s in steps.iter().rev() {
                    rest = Some(Box::new(match s {
                        Step::Key(k, cs) => YamlPath::Key(k.clone(), if cs.is_empty() { Vec::new() } else { cv!(cs) }, rest),
                        Step::Idx(n, cs) => YamlPath::Indexes(n.clone(), if cs.is_empty() { Vec::new() } else { cv!(cs) }, rest),
                        Step::All(cs) => YamlPath::AllIndexes(if cs.is_empty() { Vec::new() } else { cv!(cs) }, rest),
                    }));
                }
                *rest.expect("a path has a step")
            }
        }
    }
}

/// Independent reader of path texts. None: not a path. Some(None): not decided (spaces next to
/// the path syntax are skipped by the grammar in some places)
fn read_path(t: &str) -> Option<Option<Path>> {
    fn spacy(s: &str) -> bool {
        s.starts_with(' ') || s.ends_with(' ')
    }
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut fuzzy = false;
    fn conds(c: &[char], i: &mut usize, fuzzy: &mut bool) -> Option<Vec<Cond>> {
        let mut out = Vec::new();
        while *i < c.len() && c[*i] == '|' {
            *i += 1;
            let a = *i;
            while *i < c.len() && c[*i] != '=' {
                *i += 1;
            }
            let f: String = c[a..*i].iter().collect();
            if *i == c.len() || f.is_empty() {
                return None;
            }
            *i += 1;
            let a = *i;
            while *i < c.len() && !matches!(c[*i], '.' | '|' | '[') {
                *i += 1;
            }
            let v: String = c[a..*i].iter().collect();
            if v.is_empty() {
                return None;
            }
            if spacy(&f) || spacy(&v) {
                *fuzzy = true;
            }
            out.push((f, v));
        }
        Some(out)
    }
    let key = |c: &[char], i: &mut usize| -> Option<String> {
        let a = *i;
        while *i < c.len() && !matches!(c[*i], '.' | '|' | '[' | ']') {
            *i += 1;
        }
        (a < *i).then(|| c[a..*i].iter().collect())
    };
    if c.is_empty() {
        return Some(Some(Path::Root(vec![])));
    }
    if c[0] == '|' {
        let cs = conds(&c, &mut i, &mut fuzzy);
        return match cs {
            Some(cs) if i == c.len() => Some((!fuzzy).then_some(Path::Root(cs))),
            _ => None,
        };
    }
    let mut steps = Vec::new();
    let Some(k) = key(&c, &mut i) else { return None };
    fuzzy |= spacy(&k);
    let Some(cs) = conds(&c, &mut i, &mut fuzzy) else { return None };
    steps.push(Step::Key(k, cs));
    while i < c.len() {
        match c[i] {
            '.' => {
                i += 1;
                let Some(k) = key(&c, &mut i) else { return None };
                fuzzy |= spacy(&k);
                let Some(cs) = conds(&c, &mut i, &mut fuzzy) else { return None };
                steps.push(Step::Key(k, cs));
            }
            '[' => {
                i += 1;
                let a = i;
                while i < c.len() && c[i] != ']' {
                    i += 1;
                }
                if i == c.len() {
                    return None;
                }
                let inner: String = c[a..i].iter().collect();
                i += 1;
                let Some(cs) = conds(&c, &mut i, &mut fuzzy) else { return None };
                if inner == "*" {
                    steps.push(Step::All(cs));
                } else if !inner.is_empty() && inner.chars().all(|c| c.is_ascii_digit()) {
                    let Ok(n) = inner.parse::<usize>() else { return None };
                    steps.push(Step::Idx(vec![n], cs));
                } else {
                    return None;
                }
            }
            _ => return None,
        }
    }
    Some((!fuzzy).then_some(Path::Steps(steps)))
}

/// spaces next to the path syntax or at the ends
fn space_at_edge(t: &str) -> bool {
    let c: Vec<char> = t.chars().collect();
    c.iter().enumerate().any(|(i, x)| {
        *x == ' '
            && (i == 0
                || i + 1 == c.len()
                || c[i + 1] == ' '
                || ".|[]=*".contains(c[i - 1])
                || ".|[]=*".contains(c[i + 1])
                // inside an index
                || c[..i].iter().rposition(|x| *x == '[') > c[..i].iter().rposition(|x| *x == ']'))
    })
}

fn path_text(t: &str, ctx: &mut Ctx) -> Res {
    ctx.call(1);
    let got = t.parse::<YamlPath>();
    if space_at_edge(t) {
        ctx.class("spaces next to the syntax: only totality");
        return Ok(());
    }
    let want = match read_path(t) {
        Some(None) => {
            ctx.class("spaces next to the syntax: only totality");
            return Ok(());
        }
        Some(Some(p)) => Some(p),
        None => None,
    };
    ctx.compared();
    match (&want, &got) {
        (None, Err(_)) => ctx.class("rejected"),
        (Some(p), Ok(g)) if *g == p.real() => {
            ctx.class("accepted");
            ctx.state(&format!("{g:?}"));
        }
        _ => {
            return viol(
                format!("path {t}"),
                format!("path {t:?}\nmeans   {want:?}\nread as {:?}", got.map_err(|e| e.to_string())),
            )
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------- reference

type Place = Vec<usize>;

fn at<'a>(y: &'a Yaml, p: &[usize]) -> &'a Yaml {
    let Some((i, rest)) = p.split_first() else { return y };
    match y {
        Yaml::Hash(h) => match &h[*i] {
            HashData::Element(e) => at(&e.value.value, rest),
            _ => unreachable!(),
        },
        Yaml::Array(h) => match &h[*i] {
            ArrayData::Element(e) => at(&e.value, rest),
            _ => unreachable!(),
        },
        Yaml::InlineArray(h) => at(&h[*i], rest),
        _ => unreachable!(),
    }
}

fn at_mut<'a>(y: &'a mut Yaml, p: &[usize]) -> &'a mut Yaml {
    let Some((i, rest)) = p.split_first() else { return y };
    match y {
        Yaml::Hash(h) => match &mut h[*i] {
            HashData::Element(e) => at_mut(&mut e.value.value, rest),
            _ => unreachable!(),
        },
        Yaml::Array(h) => match &mut h[*i] {
            ArrayData::Element(e) => at_mut(&mut e.value, rest),
            _ => unreachable!(),
        },
        Yaml::InlineArray(h) => at_mut(&mut h[*i], rest),
        _ => unreachable!(),
    }
}

fn entry<'a>(y: &'a Yaml, key: &str) -> Option<(usize, &'a HashElement)> {
    let Yaml::Hash(h) = y else { return None };
    for (i, d) in h.iter().enumerate() {
        if let HashData::Element(e) = d {
            if e.key == key {
                return Some((i, e));
            }
        }
    }
    None
}

fn text_of(y: &Yaml) -> Option<String> {
    match abs(y) {
        V::Plain(s) | V::Text(s) => Some(s),
        _ => None,
    }
}

fn fits(y: &Yaml, cs: &[Cond]) -> bool {
    cs.iter()
        .all(|(f, v)| entry(y, f).is_some_and(|(_, e)| text_of(&e.value.value).as_deref() == Some(v)))
}

fn elements(y: &Yaml) -> Vec<usize> {
    match y {
        Yaml::Array(a) => (0..a.len()).filter(|i| matches!(a[*i], ArrayData::Element(_))).collect(),
        Yaml::InlineArray(a) => (0..a.len()).collect(),
        _ => vec![],
    }
}

fn step(y: &Yaml, from: Vec<Place>, s: &Step) -> Vec<Place> {
    let mut out = Vec::new();
    for p in from {
        let n = at(y, &p);
        let mut add = |i: usize| {
            let mut q = p.clone();
            q.push(i);
            out.push(q);
        };
        match s {
            Step::Key(k, cs) => {
                if fits(n, cs) {
                    if let Some((i, _)) = entry(n, k) {
                        add(i);
                    }
                }
            }
            Step::Idx(ns, cs) => {
                let es = elements(n);
                for i in ns {
                    if let Some(e) = es.get(*i) {
                        if fits(at(n, &[*e]), cs) {
                            add(*e);
                        }
                    }
                }
            }
            Step::All(cs) => {
                for e in elements(n) {
                    if fits(at(n, &[e]), cs) {
                        add(e);
                    }
                }
            }
        }
    }
    out
}

fn places(y: &Yaml, p: &Path) -> Vec<Place> {
    match p {
        Path::Root(cs) => {
            if fits(y, cs) {
                vec![vec![]]
            } else {
                vec![]
            }
        }
        Path::Steps(steps) => {
            let mut cur = vec![vec![]];
            for s in steps {
                cur = step(y, cur, s);
            }
            cur
        }
    }
}

/// places of the entries when the path ends in a key
fn entry_places(y: &Yaml, p: &Path) -> Vec<Place> {
    match p {
        Path::Steps(s) if matches!(s.last(), Some(Step::Key(..))) => places(y, p),
        _ => vec![],
    }
}

fn element_at<'a>(y: &'a mut Yaml, p: &[usize]) -> &'a mut HashElement {
    let (last, parent) = p.split_last().unwrap();
    match at_mut(y, parent) {
        Yaml::Hash(h) => match &mut h[*last] {
            HashData::Element(e) => e,
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}

#[derive(Debug, Clone)]
pub enum Op {
    Insert(Path, AliasedYaml, bool),
    InsertCall(Path, AliasedYaml, bool),
    Remove(Path),
    Rename(Path, String),
    ToObject(Path, String),
    Sub(Path, String, Vec<String>),
    Split(Path, String, String, String, Vec<String>),
}

fn al(value: Yaml) -> AliasedYaml {
    AliasedYaml { alias: None, value }
}

fn ref_apply(y: &mut Yaml, op: &Op) -> usize {
    match op {
        Op::Insert(p, v, over) | Op::InsertCall(p, v, over) => {
            let Path::Steps(steps) = p else { return 0 };
            let (Step::Key(k, cs), before) = steps.split_last().unwrap() else { return 0 };
            let mut cur = vec![vec![]];
            for s in before {
                cur = step(y, cur, s);
            }
            let mut n = 0;
            for q in cur {
                if !fits(at(y, &q), cs) {
                    continue;
                }
                let old = entry(at(y, &q), k).map(|x| x.0);
                if let Yaml::Hash(h) = at_mut(y, &q) {
                    let new = HashData::Element(HashElement { key: k.clone(), value: v.clone() });
                    match old {
                        None => h.push(new),
                        Some(i) if *over => h[i] = new,
                        Some(_) => continue,
                    }
                    n += 1;
                }
            }
            n
        }
        Op::Remove(p) => {
            let ps = entry_places(y, p);
            for q in &ps {
                let (last, parent) = q.split_last().unwrap();
                if let Yaml::Hash(h) = at_mut(y, parent) {
                    h.remove(*last);
                }
            }
            ps.len()
        }
        Op::Rename(p, name) => {
            let ps = entry_places(y, p);
            for q in &ps {
                element_at(y, q).key = name.clone();
            }
            ps.len()
        }
        Op::ToObject(p, name) => {
            let ps = entry_places(y, p);
            for q in &ps {
                let e = element_at(y, q);
                let value = std::mem::replace(&mut e.value, al(Yaml::UnquotedString(String::new())));
                e.value = al(Yaml::Hash(vec![HashData::Element(HashElement { key: name.clone(), value })]));
            }
            ps.len()
        }
        Op::Sub(p, sub, fields) => {
            let ps = places(y, p);
            let mut n = 0;
            for q in &ps {
                n += ref_sub(at_mut(y, q), sub, fields) as usize;
            }
            n
        }
        Op::Split(p, old, sel, new, keeps) => {
            let ps = places(y, p);
            let mut n = 0;
            for q in &ps {
                n += ref_split(at_mut(y, q), old, sel, new, keeps) as usize;
            }
            n
        }
    }
}

/// moves one field after the other
fn ref_sub(y: &mut Yaml, sub: &str, fields: &[String]) -> bool {
    if !matches!(y, Yaml::Hash(_)) {
        return false;
    }
    let existed = entry(y, sub).is_some();
    if existed && !matches!(entry(y, sub).unwrap().1.value.value, Yaml::Hash(_)) {
        return false;
    }
    let mut moved: Vec<HashElement> = Vec::new();
    let mut seen: Vec<&String> = Vec::new();
    for f in fields {
        if f == sub || seen.contains(&f) {
            continue;
        }
        seen.push(f);
        let Some((i, _)) = entry(y, f) else { continue };
        let Yaml::Hash(h) = y else { unreachable!() };
        if let HashData::Element(e) = h.remove(i) {
            moved.push(e);
        }
    }
    if moved.is_empty() {
        return false;
    }
    if !existed {
        let Yaml::Hash(h) = y else { unreachable!() };
        h.push(HashData::Element(HashElement { key: sub.to_string(), value: al(Yaml::Hash(vec![])) }));
    }
    let i = entry(y, sub).unwrap().0;
    let target = at_mut(y, &[i]);
    for e in moved {
        let old = entry(target, &e.key).map(|x| x.0);
        let Yaml::Hash(h) = target else { unreachable!() };
        match old {
            Some(i) => h[i] = HashData::Element(e),
            None => h.push(HashData::Element(e)),
        }
    }
    true
}

/// Two passes: first decide where every entry goes, then where every comment goes
fn ref_split(y: &mut Yaml, old: &str, sel: &str, new: &str, keeps: &[String]) -> bool {
    if entry(y, new).is_some() {
        return false;
    }
    let Some((oi, oe)) = entry(y, old) else { return false };
    let Yaml::Hash(items) = oe.value.value.clone() else { return false };
    #[derive(Clone, PartialEq)]
    enum To {
        Old,
        New(String),
    }
    let mut dest: Vec<Option<To>> = vec![None; items.len()];
    let mut strip: Vec<bool> = vec![false; items.len()];
    for (i, d) in items.iter().enumerate() {
        if let HashData::Element(e) = d {
            let value = entry(&e.value.value, sel).and_then(|(_, s)| text_of(&s.value.value));
            strip[i] = value.is_some();
            dest[i] = Some(match value {
                None => To::Old,
                Some(s) if s.is_empty() || keeps.contains(&s) => To::Old,
                Some(s) => To::New(s),
            });
        }
    }
    if !dest.iter().any(|d| matches!(d, Some(To::New(_)))) {
        return false;
    }
    let n = items.len();
    let owner: Vec<usize> = (0..n).filter(|i| dest[*i].is_some()).collect();
    for i in 0..n {
        if dest[i].is_some() {
            continue;
        }
        let before = owner.iter().rev().find(|o| **o < i).and_then(|o| dest[*o].clone());
        let after = owner.iter().find(|o| **o > i).and_then(|o| dest[*o].clone());
        let to = match items[i] {
            HashData::InlineComment(_) => before.unwrap_or(To::Old),
            _ => after.or(before).unwrap_or(To::Old),
        };
        // looked up through `owner` only, so this doesn't disturb the loop
        dest[i] = Some(to);
    }
    let mut rest = Vec::new();
    let mut groups: Vec<(String, Vec<HashData>)> = Vec::new();
    for (i, mut d) in items.into_iter().enumerate() {
        if let (true, HashData::Element(e)) = (strip[i], &mut d) {
            let k = entry(&e.value.value, sel).unwrap().0;
            if let Yaml::Hash(h) = &mut e.value.value {
                h.remove(k);
            }
        }
        match dest[i].clone().unwrap() {
            To::Old => rest.push(d),
            To::New(s) => match groups.iter_mut().find(|g| g.0 == s) {
                Some(g) => g.1.push(d),
                None => groups.push((s, vec![d])),
            },
        }
    }
    groups.sort_by(|a, b| a.0.cmp(&b.0));
    let Yaml::Hash(h) = y else { unreachable!() };
    if let HashData::Element(e) = &mut h[oi] {
        e.value.value = Yaml::Hash(rest);
    }
    h.push(HashData::Element(HashElement {
        key: new.to_string(),
        value: al(Yaml::Hash(
            groups
                .into_iter()
                .map(|(key, v)| HashData::Element(HashElement { key, value: al(Yaml::Hash(v)) }))
                .collect(),
        )),
    }));
    true
}

fn real_apply(d: &mut Document, op: &Op) -> usize {
    match op {
        Op::Insert(p, v, over) => d.insert_into_hash(&p.real(), v, *over),
        Op::InsertCall(p, v, over) => d.insert_into_hash_by_call(&p.real(), || v.clone(), *over),
        Op::Remove(p) => d.remove_from_hash(&p.real()),
        Op::Rename(p, n) => d.rename_field(&p.real(), n.clone()),
        Op::ToObject(p, n) => d.to_object(&p.real(), n.clone()),
        Op::Sub(p, s, f) => d.move_to_subfield(&p.real(), s.clone(), f.clone()),
        Op::Split(p, o, s, n, k) => {
            d.move_to_map_with_field_as_key(&p.real(), o.clone(), s.clone(), n.clone(), k.clone())
        }
    }
}

fn op_text(op: &Op) -> String {
    match op {
        Op::Insert(p, v, o) => format!("insert_into_hash({:?}, {:?}, {o})", p_name(p), abs_al(v)),
        Op::InsertCall(p, v, o) => format!("insert_into_hash_by_call({:?}, {:?}, {o})", p_name(p), abs_al(v)),
        Op::Remove(p) => format!("remove_from_hash({:?})", p_name(p)),
        Op::Rename(p, n) => format!("rename_field({:?}, {n:?})", p_name(p)),
        Op::ToObject(p, n) => format!("to_object({:?}, {n:?})", p_name(p)),
        Op::Sub(p, s, f) => format!("move_to_subfield({:?}, {s:?}, {f:?})", p_name(p)),
        Op::Split(p, o, s, n, k) => {
            format!("move_to_map_with_field_as_key({:?}, {o:?}, {s:?}, {n:?}, {k:?})", p_name(p))
        }
    }
}

fn doc_root_mut(d: &mut Document) -> &mut Yaml {
    d.items
        .iter_mut()
        .find_map(|i| match i {
            DocumentData::Yaml(y) => Some(y),
            _ => None,
        })
        .expect("root")
}

fn show(d: &Document) -> String {
    d.format().unwrap_or_default()
}

/// apply an operation to the real document and compare with the reference
fn apply_checked(before: &Document, op: &Op, ctx: &mut Ctx) -> Result<Document, Violation> {
    let mut want = before.clone();
    let n = ref_apply(doc_root_mut(&mut want), op);
    let mut got = before.clone();
    ctx.call(1);
    let m = real_apply(&mut got, op);
    ctx.compared();
    if m != n || got != want {
        return viol(
            format!("{} on {}", op_text(op), show(before)),
            format!(
                "document:\n{}\noperation: {}\nexpected {n} changes:\n{}\n{:?}\ngot {m} changes:\n{}\n{:?}",
                show(before),
                op_text(op),
                show(&want),
                want.items,
                show(&got),
                got.items
            ),
        );
    }
    ctx.class(if n == 0 { "nothing denoted" } else { "changed" });
    Ok(got)
}

// ------------------------------------------------------------------------------- documents

fn rekey(g: &mut G, n: &mut usize) {
    const KEYS: &[&str] = &["a", "b", "c", "d"];
    match g {
        G::BMap(m) => {
            for (i, (k, v)) in m.iter_mut().enumerate() {
                *k = KEYS[i].to_string();
                rekey(&mut v.g, n);
            }
        }
        G::BSeq(m) => m.iter_mut().for_each(|v| rekey(&mut v.g, n)),
        G::FMap(m) => {
            for (i, (k, v)) in m.iter_mut().enumerate() {
                *k = KEYS[i].to_string();
                rekey(v, n);
            }
        }
        G::FSeq(m) => m.iter_mut().for_each(|v| rekey(v, n)),
        _ => {}
    }
}

fn pl(s: &str) -> G {
    G::Plain(s.to_string())
}

/// documents in which keys and texts repeat, so that conditions and paths hit several places
fn edit_trees(n: usize) -> Vec<G> {
    let sq = |s: &str| G::Quoted('\'', s.into(), s.into());
    let mut s = shape(vec![pl("x"), pl("y"), sq("x")], vec![pl("x"), sq("y")], 3);
    s.flow = true;
    let (block, _) = nodes_upto(&s, n);
    block
        .into_iter()
        .flatten()
        .filter(|g| matches!(g, G::BMap(_)))
        .map(|mut g| {
            rekey(&mut g, &mut 0);
            g
        })
        .collect()
}

/// larger documents with few leaf kinds
fn edit_trees_deep(n: usize) -> Vec<G> {
    let mut s = shape(vec![pl("x")], vec![], 3);
    s.flow = false;
    let (block, _) = nodes_upto(&s, n);
    block
        .into_iter()
        .flatten()
        .filter(|g| matches!(g, G::BMap(_)))
        .map(|mut g| {
            rekey(&mut g, &mut 0);
            g
        })
        .collect()
}

fn all_comments(n: usize) -> Option<String> {
    Some(format!("c{n}"))
}

/// parsed documents, with and without comments everywhere
/// Moves the comments behind a collection (behind its last entry or behind an entry with a block
/// collection) one level down, to the end of that collection: the parser gives them to an outer
/// one, edits and callers needn't.
fn sink(y: &mut Yaml) {
    fn add(y: &mut Yaml, c: String) -> Result<(), String> {
        match y {
            Yaml::Hash(h) => h.push(HashData::Comment(c)),
            Yaml::Array(a) => a.push(ArrayData::Comment(c)),
            _ => return Err(c),
        }
        Ok(())
    }
    match y {
        Yaml::Hash(h) => {
            for d in std::mem::take(h) {
                match d {
                    HashData::Element(mut el) => {
                        sink(&mut el.value.value);
                        h.push(HashData::Element(el));
                    }
                    HashData::Comment(c) => {
                        let r = match h.last_mut() {
                            Some(HashData::Element(el)) => add(&mut el.value.value, c),
                            _ => Err(c),
                        };
                        if let Err(c) = r {
                            h.push(HashData::Comment(c));
                        }
                    }
                    o => h.push(o),
                }
            }
        }
        Yaml::Array(a) => {
            for d in std::mem::take(a) {
                match d {
                    ArrayData::Element(mut el) => {
                        sink(&mut el.value);
                        a.push(ArrayData::Element(el));
                    }
                    ArrayData::Comment(c) => {
                        let r = match a.last_mut() {
                            Some(ArrayData::Element(el)) => add(&mut el.value, c),
                            _ => Err(c),
                        };
                        if let Err(c) = r {
                            a.push(ArrayData::Comment(c));
                        }
                    }
                    o => a.push(o),
                }
            }
        }
        _ => (),
    }
}

/// the document with its comments one level deeper, two levels, ...
fn sunk(d: &Document) -> Vec<Document> {
    let mut out: Vec<Document> = Vec::new();
    let mut last = d.clone();
    for _ in 0..3 {
        let mut n = last.clone();
        n.items.clear();
        for i in last.items.clone() {
            match (n.items.last_mut(), i) {
                (_, DocumentData::Yaml(mut y)) => {
                    sink(&mut y);
                    n.items.push(DocumentData::Yaml(y));
                }
                (Some(DocumentData::Yaml(Yaml::Hash(h))), DocumentData::Comment(c)) => h.push(HashData::Comment(c)),
                (Some(DocumentData::Yaml(Yaml::Array(a))), DocumentData::Comment(c)) => a.push(ArrayData::Comment(c)),
                (_, c) => n.items.push(c),
            }
        }
        if n == last {
            break;
        }
        out.push(n.clone());
        last = n;
    }
    out
}

fn docs_of(trees: &[G]) -> Vec<Document> {
    let mut out = Vec::new();
    for g in trees {
        for (i, c) in [&no_comments as &dyn Fn(usize) -> Option<String>, &all_comments].iter().enumerate() {
            // anchors on every second entry of the commented version
            let g = if i == 1 { with_anchors(g, &|n| (n % 2 == 0).then(|| format!("n{n}"))) } else { g.clone() };
            let (t, _, _) = render(&g, &L0, *c);
            if let Ok(d) = parse(&t) {
                out.extend(sunk(&d));
                out.push(d);
            }
        }
    }
    out
}

const SPECIAL: &[&str] = &[
    "---\na: x\na: y\nb:\n  - a: x\n    a: y\n",
    "---\na: &p\n  a: x\nb: *p\nc:\n  - *p\n",
    "---\na: |\n  x\nb: >-\n  x\nc: \"x\"\n",
    "---\na:\n  - [x, [y, x]]\n  - [{a: x}, {b: y}]\nb: [[x], [y, [x]]]\n",
    "---\n- a: x\n- - a: y\n",
    "---\n{a: x}\n",
    "---\na:\n  # c\n  - x\n  # d\n  - a: x # e\n    # f\n    b: y\n  # g\n",
    "---\na: {}\nb: []\nc: ''\n",
    "---\na b:\n  a-b: x\n  é: y\n",
];

fn special_docs() -> Vec<Document> {
    SPECIAL.iter().filter_map(|t| parse(t).ok()).collect()
}

// ------------------------------------------------------------------------------- path sets

fn cond_sets(level: usize) -> Vec<Vec<Cond>> {
    let c = |f: &str, v: &str| (f.to_string(), v.to_string());
    let mut v = vec![vec![]];
    if level >= 1 {
        v.push(vec![c("a", "x")]);
    }
    if level >= 2 {
        v.push(vec![c("b", "y")]);
        v.push(vec![c("a", "x"), c("b", "y")]);
        v.push(vec![c("c", "x"), c("a", "x")]);
    }
    v
}

fn step_set(keys: &[&str], idx: &[usize], conds: &[Vec<Cond>]) -> Vec<Step> {
    let mut out = Vec::new();
    for c in conds {
        for k in keys {
            out.push(Step::Key(k.to_string(), c.clone()));
        }
    }
    for c in conds {
        for n in idx {
            out.push(Step::Idx(vec![*n], c.clone()));
        }
        out.push(Step::All(c.clone()));
    }
    out
}

fn paths(keys: &[&str], idx: &[usize], cond_level: usize, depth: usize) -> Vec<Path> {
    let conds = cond_sets(cond_level);
    let steps = step_set(keys, idx, &conds);
    let mut out: Vec<Path> = conds.iter().map(|c| Path::Root(c.clone())).collect();
    let mut cur: Vec<Vec<Step>> = steps.iter().filter(|s| matches!(s, Step::Key(..))).map(|s| vec![s.clone()]).collect();
    for d in 1..=depth {
        out.extend(cur.iter().cloned().map(Path::Steps));
        if d < depth {
            cur = cur
                .iter()
                .flat_map(|p| {
                    steps.iter().map(move |s| {
                        let mut q = p.clone();
                        q.push(s.clone());
                        q
                    })
                })
                .collect();
        }
    }
    out
}

/// paths that start with an index, and several indexes at once (only as values, not as text)
fn programmatic_paths() -> Vec<Path> {
    let mut out = Vec::new();
    for first in [Step::Idx(vec![0, 1], vec![]), Step::Idx(vec![1], vec![]), Step::All(vec![])] {
        out.push(Path::Steps(vec![first.clone()]));
        out.push(Path::Steps(vec![Step::Key("a".into(), vec![]), first.clone()]));
        for second in [Step::Key("a".into(), vec![]), Step::Idx(vec![0, 1, 2], vec![]), Step::All(vec![])] {
            out.push(Path::Steps(vec![first.clone(), second.clone()]));
            out.push(Path::Steps(vec![Step::Key("a".into(), vec![]), first.clone(), second.clone()]));
            out.push(Path::Steps(vec![first.clone(), second.clone(), Step::Key("a".into(), vec![])]));
        }
    }
    out
}

/// documents with a text in every style, and the paths with conditions on it
fn cond_texts() -> (Vec<Document>, Vec<Path>) {
    const STYLES: &[&str] = &[
        "x", "x y", "'x'", "\"x\"", "''", "\"\"", "'x''y'", "\"x\\ty\"", "\"\\\"x\\\\\"", "1", "null", "'x '", "\"x\\ny\"",
        "'x\n\n    y'", "\"x\n    y\"", "|\n    x", "|-\n    x", "|+\n    x\n", "|\n    x\n    y", "|-\n    x\n\n    y", "|+\n    x\n\n", ">\n    x",
        ">-\n    x", ">+\n    x\n", ">-\n    x\n    y", ">-\n    x\n\n    y", "|2-\n      x", "|-\n    x \n     y",
    ];
    const VALUES: &[&str] = &[
        "x", "", " ", "x ", "x y", "xy", "x'y", "x\ty", "\"x\\", "1", "01", "null", "x\n", "x\n\n", "x\ny", "x\ny\n", "x\n\ny", "x \n y", "  x", "'x'",
    ];
    let mut docs = Vec::new();
    for s in STYLES {
        for t in [
            format!("---\na: {s}\nb: y\n"),
            format!("---\nl:\n  - a: x\n    b: first\n  - b: second\n    a: {}\n", s.replace('\n', "\n  ")),
            format!("---\nb:\n  a: {}\n  b: y\na: z\n", s.replace('\n', "\n  ")),
        ] {
            docs.extend(parse(&t).ok());
        }
    }
    let key = |k: &str, c: Vec<Cond>| Step::Key(k.into(), c);
    let mut paths = Vec::new();
    for v in VALUES {
        let c = vec![("a".to_string(), v.to_string())];
        let mut two = c.clone();
        two.push(("b".into(), "y".into()));
        paths.push(Path::Root(c.clone()));
        paths.push(Path::Root(two.clone()));
        paths.push(Path::Steps(vec![key("b", c.clone())]));
        paths.push(Path::Steps(vec![key("b", two.clone()), key("b", vec![])]));
        paths.push(Path::Steps(vec![key("l", vec![]), Step::All(c.clone()), key("b", vec![])]));
        paths.push(Path::Steps(vec![key("l", vec![]), Step::Idx(vec![1], c.clone()), key("a", vec![])]));
    }
    (docs, paths)
}

/// Every path up to `depth` steps whose prefix denotes something in `y`, and for every path that
/// denotes nothing the next steps that need something to be there
fn guided(y: &Yaml, depth: usize, conds: &[Vec<Cond>], f: &mut dyn FnMut(&Path) -> Res) -> Res {
    let steps = step_set(&["a", "b", "c"], &[0, 1], conds);
    let dead = [Step::Key("a".into(), vec![]), Step::All(vec![])];
    fn go(
        y: &Yaml,
        from: Vec<Place>,
        path: &mut Vec<Step>,
        left: usize,
        steps: &[Step],
        dead: &[Step],
        f: &mut dyn FnMut(&Path) -> Res,
    ) -> Res {
        let alive = !from.is_empty();
        for s in if alive { steps } else { dead } {
            path.push(s.clone());
            f(&Path::Steps(path.clone()))?;
            if left > 1 {
                let to = step(y, from.clone(), s);
                if alive {
                    let l = if to.is_empty() { 2.min(left) } else { left };
                    go(y, to, path, l - 1, steps, dead, f)?;
                }
            }
            path.pop();
        }
        Ok(())
    }
    for c in conds {
        f(&Path::Root(c.clone()))?;
    }
    go(y, vec![vec![]], &mut Vec::new(), depth, &steps, &dead, f)
}

type DocRun = fn(&Document, usize, &[Vec<Cond>], &mut Ctx) -> Res;

fn guided_space(label: impl Into<String>, trees: Vec<G>, depth: usize, level: usize, run: DocRun) -> Space {
    let trees = Arc::new(trees);
    let t2 = trees.clone();
    let conds = cond_sets(level);
    fn text(trees: &[G], i: u64) -> String {
        let g = &trees[(i / 2) as usize];
        if i % 2 == 1 {
            // comments everywhere, anchors on every second entry
            render(&with_anchors(g, &|n| (n % 2 == 0).then(|| format!("n{n}"))), &L0, &all_comments).0
        } else {
            render(g, &L0, &no_comments).0
        }
    }
    Space::new(
        label,
        trees.len() as u64 * 2,
        move |i| text(&t2, i),
        move |i, ctx| match parse(&text(&trees, i)) {
            Ok(d) => run(&d, depth, &conds, ctx),
            Err(_) => {
                ctx.class("document rejected");
                Ok(())
            }
        },
    )
}

fn find_guided(d: &Document, depth: usize, conds: &[Vec<Cond>], ctx: &mut Ctx) -> Res {
    ctx.state(&show(d));
    guided(root(d), depth, conds, &mut |p| find_case(d, p, ctx))
}

fn insert_guided(d: &Document, depth: usize, conds: &[Vec<Cond>], ctx: &mut Ctx) -> Res {
    guided(root(d), depth, conds, &mut |p| {
        for op in insert_ops(std::slice::from_ref(p)).iter().chain(&names::same_ops(d, p)) {
            op_case(d, op, ctx)?;
        }
        Ok(())
    })
}

fn rename_guided(d: &Document, depth: usize, conds: &[Vec<Cond>], ctx: &mut Ctx) -> Res {
    guided(root(d), depth, conds, &mut |p| {
        for op in rename_ops(std::slice::from_ref(p)) {
            op_case(d, &op, ctx)?;
        }
        Ok(())
    })
}

/// every document with every item of a list
fn pair_space<T: Send + Sync + 'static>(
    label: impl Into<String>,
    docs: Vec<Document>,
    items: Vec<T>,
    text: fn(&T) -> String,
    run: fn(&Document, &T, &mut Ctx) -> Res,
) -> Space {
    let docs = Arc::new(docs);
    let items = Arc::new(items);
    let (d2, i2) = (docs.clone(), items.clone());
    let n = items.len() as u64;
    Space::new(
        label,
        docs.len() as u64 * n,
        move |i| format!("{} on {}", text(&i2[(i % n) as usize]), show(&d2[(i / n) as usize])),
        move |i, ctx| run(&docs[(i / n) as usize], &items[(i % n) as usize], ctx),
    )
}

// ------------------------------------------------------------------------------- C09

const C09_TOKS: &[&str] = &["a", "b", ".", "[", "]", "*", "0", "1", "|", "=", " ", "é", "-", "18446744073709551616"];

fn structured_path(p: &Path, ctx: &mut Ctx) -> Res {
    path_text(&p.text(), ctx)?;
    // and it is not rejected
    ctx.call(1);
    let t = p.text();
    match t.parse::<YamlPath>() {
        Ok(g) if g == p.real() => Ok(()),
        other => viol(
            format!("path {t}"),
            format!("path {t:?}\nmeans   {p:?}\nread as {:?}", other.map_err(|e| e.to_string())),
        ),
    }
}

fn list_space<T: Send + Sync + 'static>(
    label: &str,
    items: Vec<T>,
    text: fn(&T) -> String,
    run: fn(&T, &mut Ctx) -> Res,
) -> Space {
    let items = Arc::new(items);
    let i2 = items.clone();
    Space::new(label, items.len() as u64, move |i| text(&i2[i as usize]), move |i, ctx| run(&items[i as usize], ctx))
}

/// steps of a path, with the conditions of a root path as a separate filter
fn append_case(ps: &(Path, Path), ctx: &mut Ctx) -> Res {
    let (a, b) = ps;
    let mut joined = a.real();
    joined.insert(b.real());
    ctx.call(1);
    ctx.compared();
    let key = format!("append {} + {}", p_name(a), p_name(b));
    if let (Path::Steps(x), Path::Steps(y)) = (a, b) {
        let want = Path::Steps(x.iter().chain(y).cloned().collect()).real();
        if joined != want {
            return viol(key, format!("appending {} to {}\ngives {joined:?}\nnot   {want:?}", p_name(b), p_name(a)));
        }
    }
    // what it denotes
    for d in append_docs() {
        let y = root(d);
        let mut want = Vec::new();
        for p in places(y, a) {
            let sub = at(y, &p);
            for q in places(sub, b) {
                want.push(at(sub, &q).clone());
            }
        }
        ctx.call(1);
        let got = d.clone().find_values(&joined).0;
        if got != want {
            return viol(
                key,
                format!(
                    "appending {} to {} gives {joined:?}\nin document:\n{}\nit finds {got:?}\nnot      {want:?}",
                    p_name(b),
                    p_name(a),
                    show(d)
                ),
            );
        }
    }
    ctx.state(&format!("{joined:?}"));
    Ok(())
}

fn append_docs() -> &'static Vec<Document> {
    static D: std::sync::OnceLock<Vec<Document>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        [
            "---\na: x\nb: y\n",
            "---\na: x\nb:\n  a: x\n  b:\n    - a: x\n      b: y\n    - a: y\n",
            "---\na:\n  - a: x\n    b:\n      - x\n      - a: x\n  - a: x\n    b: y\nb: y\n",
            "---\na:\n  a:\n    a: x\n    b: y\n  b: [x, [y]]\nb: x\n",
        ]
        .iter()
        .filter_map(|t| parse(t).ok())
        .collect()
    })
}

fn append_pairs(depth: usize, level: usize) -> Vec<(Path, Path)> {
    let ps = paths(&["a", "b"], &[0, 1], level, depth);
    let mut second = ps.clone();
    second.extend(programmatic_paths());
    let mut out = Vec::new();
    for a in &ps {
        for b in &second {
            // conditions on the root can't be combined with an index on it: nothing is denoted,
            // which no path can express
            let starts_with_index = matches!(b, Path::Steps(s) if !matches!(s[0], Step::Key(..)));
            if matches!(a, Path::Root(cs) if !cs.is_empty()) && starts_with_index {
                continue;
            }
            out.push((a.clone(), b.clone()));
        }
    }
    out
}

fn c09(thorough: bool) -> Vec<Space> {
    let mut v = token_spaces("path tokens", &["", "a", "a|b=", "a[0]", "|a=b"], C09_TOKS, if thorough { 6 } else { 4 }, path_text);
    let mut s = paths(&["a", "a b", "é-1", "*", "0", "a=b"], &[0, 12], 0, 3);
    s.extend(paths(&["a"], &[0, 1], 2, if thorough { 4 } else { 3 }));
    s.extend(paths(&["a", "b"], &[3], 0, if thorough { 7 } else { 6 }));
    s.extend(weird_cond_paths());
    s.extend(big::long_paths(thorough));
    v.push(list_space("structured paths", s, |p| p.text(), structured_path));
    v.push(list_space("appended paths", append_pairs(if thorough { 3 } else { 2 }, 1), |(a, b)| format!("{} + {}", p_name(a), p_name(b)), append_case));
    v
}

/// conditions whose field and value contain other syntax
fn weird_cond_paths() -> Vec<Path> {
    let c = |f: &str, v: &str| (f.to_string(), v.to_string());
    let fields = ["a", "a.b", "a|b", "a[0]", "é", "a b", "*"];
    let values = ["x", "x=y", "a]", "*", "0", "é ü", "a b", "="];
    let mut out = Vec::new();
    for f in fields {
        for v in values {
            for next in [None, Some(Step::Key("k".into(), vec![])), Some(Step::Idx(vec![0], vec![])), Some(Step::All(vec![c("f", "v")]))] {
                let mut s = vec![Step::Key("k".into(), vec![c(f, v), c("a", "x")])];
                let mut s2 = vec![Step::Key("k".into(), vec![]), Step::All(vec![c(f, v)])];
                if let Some(n) = next {
                    s.push(n.clone());
                    s2.push(n);
                }
                out.push(Path::Steps(s));
                out.push(Path::Steps(s2));
            }
            out.push(Path::Root(vec![c(f, v)]));
            out.push(Path::Root(vec![c("a", "x"), c(f, v)]));
        }
    }
    out
}

// ------------------------------------------------------------------------------- C10

fn find_case(d: &Document, p: &Path, ctx: &mut Ctx) -> Res {
    let y = root(d);
    let want: Vec<Yaml> = places(y, p).iter().map(|q| at(y, q).clone()).collect();
    let mut e = d.clone();
    ctx.call(1);
    let got = e.find_values(&p.real()).0;
    ctx.compared();
    if got != want {
        return viol(
            format!("find {} in {}", p_name(p), show(d)),
            format!("path {}\nin document:\n{}\nfinds    {got:?}\nnot      {want:?}", p_name(p), show(d)),
        );
    }
    if e != *d {
        return viol(
            format!("find changes {} in {}", p_name(p), show(d)),
            format!("looking up {} changed the document\n{}\nto\n{}", p_name(p), show(d), show(&e)),
        );
    }
    ctx.class(match want.len() {
        0 => "nothing found",
        1 => "one value",
        _ => "several values",
    });
    Ok(())
}

fn p_name(p: &Path) -> String {
    match p {
        Path::Steps(s) if s.iter().any(|s| matches!(s, Step::Idx(n, _) if n.len() != 1)) => format!("{p:?}"),
        p => p.text(),
    }
}

fn c10(thorough: bool) -> Vec<Space> {
    let mut sp = special_docs();
    sp.extend(docs_of(&edit_trees(4)));
    let t = thorough as usize;
    vec![
        pair_space("special documents x all paths", sp, {
            let mut p = paths(&["a", "b", "c"], &[0, 1], 2, 2);
            p.extend(paths(&["a", "b"], &[0, 1], 1, 3 + t));
            p.extend(programmatic_paths());
            p.extend(paths(&["a", "b"], &[0, 1], 0, 4 + t));
            p
        }, p_name, find_case),
        pair_space("texts in every style x conditions on texts", cond_texts().0, cond_texts().1, p_name, find_case),
        guided_space("trees x guided paths with conditions", edit_trees(6 + t), 4, 2, find_guided),
        guided_space("deep trees x guided paths", edit_trees_deep(8 + t), 5 + t, 0, find_guided),
        big::big_space(thorough, find_case),
    ]
    .into_iter()
    .chain(names::spaces(names::Kind::Find))
    .collect()
}

// ------------------------------------------------------------------------------- C11, C12

fn op_case(d: &Document, op: &Op, ctx: &mut Ctx) -> Res {
    let got = apply_checked(d, op, ctx)?;
    ctx.state(&show(&got));
    Ok(())
}

fn new_value() -> AliasedYaml {
    AliasedYaml {
        alias: Some("new".into()),
        value: Yaml::Hash(vec![HashData::Element(HashElement {
            key: "a".into(),
            value: al(Yaml::UnquotedString("inserted".into())),
        })]),
    }
}

fn insert_ops(ps: &[Path]) -> Vec<Op> {
    let plain = al(Yaml::UnquotedString("n".into()));
    let mut out = Vec::new();
    for p in ps {
        out.push(Op::Insert(p.clone(), plain.clone(), false));
        out.push(Op::Insert(p.clone(), plain.clone(), true));
        out.push(Op::InsertCall(p.clone(), new_value(), true));
        out.push(Op::InsertCall(p.clone(), new_value(), false));
        out.push(Op::Remove(p.clone()));
    }
    out
}

fn rename_ops(ps: &[Path]) -> Vec<Op> {
    let mut out = Vec::new();
    for p in ps {
        let own = match p {
            Path::Steps(s) => match s.last() {
                Some(Step::Key(k, _)) => Some(k.clone()),
                _ => None,
            },
            _ => None,
        };
        let own = own.filter(|k| k != "a" && k != "n");
        for n in ["n".to_string(), "a".into()].into_iter().chain(own) {
            out.push(Op::Rename(p.clone(), n.clone()));
            out.push(Op::ToObject(p.clone(), n.clone()));
        }
    }
    out
}

fn edit_spaces(thorough: bool, ops: fn(&[Path]) -> Vec<Op>, run: DocRun, run_path: fn(&Document, &Path, &mut Ctx) -> Res) -> Vec<Space> {
    let t = thorough as usize;
    let mut sp = special_docs();
    sp.extend(docs_of(&edit_trees(3)));
    let mut wide = paths(&["a", "b", "c", "z"], &[0, 1], 2, 2);
    wide.extend(programmatic_paths());
    wide.extend(paths(&["a", "b"], &[0, 1], 1, 3));
    vec![
        pair_space("special documents x operations", sp, ops(&wide), op_text_, op_case),
        pair_space("texts in every style x operations with conditions on texts", cond_texts().0, ops(&cond_texts().1), op_text_, op_case),
        guided_space("trees x operations at guided paths with conditions", edit_trees(5 + t), 3, 2, run),
        guided_space("deep trees x operations at guided paths", edit_trees_deep(7 + t), 5 + t, 0, run),
        big::big_space(thorough, run_path),
    ]
}

fn op_text_(op: &Op) -> String {
    op_text(op)
}

fn c11(thorough: bool) -> Vec<Space> {
    let mut v = names::spaces(names::Kind::Insert);
    v.extend(edit_spaces(thorough, insert_ops, insert_guided, |d, p, ctx| insert_ops(std::slice::from_ref(p)).iter().try_for_each(|op| op_case(d, op, ctx))));
    v
}

fn c12(thorough: bool) -> Vec<Space> {
    let mut v = names::spaces(names::Kind::Rename);
    v.extend(edit_spaces(thorough, rename_ops, rename_guided, |d, p, ctx| rename_ops(std::slice::from_ref(p)).iter().try_for_each(|op| op_case(d, op, ctx))));
    v
}

// ------------------------------------------------------------------------------- C13

/// all lists of up to n of the names, repetitions included
fn lists(names: &[&str], n: usize) -> Vec<Vec<String>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..n {
        cur = cur
            .iter()
            .flat_map(|l| {
                names.iter().map(move |x| {
                    let mut m = l.clone();
                    m.push(x.to_string());
                    m
                })
            })
            .collect();
        out.extend(cur.iter().cloned());
    }
    out
}

const SUB_VALUES: &[&str] = &[
    "",
    "s: t\n",
    "s: {}\n",
    "s: {a: old}\n",
    "s: []\n",
    "s:\n  - a: old\n",
    "s: *l\n",
    "s:\n  z: old\n",
    "s:\n  a: old # in s\n  # end\n",
    "s: &q\n  b: old\n  a:\n    s: x\n",
    "s: |\n  text\n",
];
const FIELD_VALUES: &[&str] = &["", "@: x\n", "@: &k x # c@\n", "@:\n  - x # i\n", "@:\n  s: v\n  # t\n", "@: {a: b}\n", "@: |\n  l\n", "# before @\n@: *l\n"];

/// a mapping with s, a and b in some order, each with every kind of value or missing
fn sub_docs(thorough: bool) -> Vec<Document> {
    let mut out = Vec::new();
    for (si, s) in SUB_VALUES.iter().enumerate() {
        for a in FIELD_VALUES {
            for (bi, b) in FIELD_VALUES.iter().enumerate() {
                if !thorough && bi % 2 == 1 {
                    continue;
                }
                let parts = [s.to_string(), a.replace('@', "a"), b.replace('@', "b").replace("&k", "&m")];
                let orders: &[[usize; 3]] = if si % 2 == 0 || thorough { &[[0, 1, 2], [1, 0, 2], [2, 1, 0]] } else { &[[1, 0, 2]] };
                for o in orders {
                    let body: String = o.iter().map(|i| parts[*i].clone()).collect();
                    let m: String = body.lines().map(|l| format!("  {l}\n")).collect();
                    let e: String = body.lines().map(|l| format!("    {l}\n")).collect();
                    let e = e.replacen("    ", "  - ", 1);
                    let texts = [
                        format!("---\nl: &l x\n{body}a_b: dotted\n# end\n"),
                        format!("---\nl: &l x\nm:\n{m}  other: o # o\n"),
                        format!("---\nl: &l x\nm:\n  - other: o\n  # c\n{}  - a: y\n", if body.starts_with('#') || body.is_empty() { String::new() } else { e }),
                    ];
                    for t in texts {
                        match parse(&t) {
                            Ok(mut d) => {
                                // names that the grammar doesn't read, but that edits can make
                                if let Yaml::Hash(h) = doc_root_mut(&mut d) {
                                    for x in h.iter_mut() {
                                        match x {
                                            HashData::Element(e) if e.key == "a_b" => e.key = "a.b".into(),
                                            _ => {}
                                        }
                                    }
                                }
                                out.push(d)
                            }
                            // a mapping without entries: not a document of this space
                            Err(_) => {}
                        }
                    }
                }
            }
        }
    }
    out
}

fn sub_ops(thorough: bool) -> Vec<Op> {
    let k = |s: &str| Step::Key(s.to_string(), vec![]);
    let ps = vec![
        Path::Root(vec![]),
        Path::Root(vec![("a".into(), "x".into())]),
        Path::Steps(vec![k("m")]),
        Path::Steps(vec![k("m"), Step::All(vec![])]),
        Path::Steps(vec![k("m"), Step::All(vec![("a".into(), "x".into())])]),
        Path::Steps(vec![k("m"), Step::Idx(vec![1], vec![])]),
        Path::Steps(vec![k("s")]),
    ];
    let mut out = Vec::new();
    for p in ps {
        for l in lists(&["a", "b", "s", "zz"], if thorough { 3 } else { 2 }) {
            out.push(Op::Sub(p.clone(), "s".into(), l));
        }
        for l in lists(&["a.b", "a", "s"], 2) {
            out.push(Op::Sub(p.clone(), "new".into(), l.clone()));
            out.push(Op::Sub(p.clone(), "p.q".into(), l.clone()));
            out.push(Op::Sub(p.clone(), "a".into(), l));
        }
    }
    out
}

fn c13(thorough: bool) -> Vec<Space> {
    vec![
        pair_space("mappings x subfields x field lists", sub_docs(thorough), sub_ops(thorough), op_text_, op_case),
        pair_space("trees x subfields x field lists", docs_of(&edit_trees(if thorough { 6 } else { 5 })), {
            let mut ops = Vec::new();
            for p in paths(&["a", "b"], &[0], 0, 2) {
                for l in lists(&["a", "b", "c"], 2) {
                    for s in ["a", "c", "n"] {
                        ops.push(Op::Sub(p.clone(), s.into(), l.clone()));
                    }
                }
            }
            ops
        }, op_text_, op_case),
        big::sub_space(thorough),
    ]
    .into_iter()
    .chain(names::spaces(names::Kind::Sub))
    .collect()
}

// ------------------------------------------------------------------------------- C14

const SPLIT_ENTRIES: &[&str] = &[
    "@:\n  type: x\n  v: 1\n",
    "@:\n  v: 1 # v\n  type: y # t\n  # end\n",
    "@: &n@\n  type: keep\n",
    "@:\n  type: ''\n  w: 2\n",
    "@:\n  w: 2\n",
    "@: plain\n",
    "@:\n  type: [x]\n",
    "@: {type: x}\n",
    "@: *l\n",
    "@:\n  - type: x\n",
    "@:\n  type: |-\n    x\n  type: y\n",
];

/// comment placement around entry i: 0 none, 1 before, 2 inline (only after one-line values), 3 both
fn split_docs(n: usize, comments: usize) -> Vec<String> {
    let k = SPLIT_ENTRIES.len();
    let mut out = Vec::new();
    let total = k.pow(n as u32) * comments.pow(n as u32 + 1);
    for i in 0..total {
        let mut d = Dec(i as u64);
        let mut body = String::new();
        for e in 0..n {
            let name = format!("e{e}");
            let kind = d.pick(k);
            let c = d.pick(comments);
            if c & 1 == 1 {
                body.push_str(&format!("# before {name}\n"));
            }
            let mut t = SPLIT_ENTRIES[kind].replace('@', &name);
            if c & 2 == 2 && t.lines().count() == 1 {
                t = format!("{} # at {name}\n", t.trim_end());
            }
            body.push_str(&t);
        }
        if d.pick(comments) & 1 == 1 {
            body.push_str("# last\n");
        }
        let body: String = body.lines().map(|l| format!("  {l}\n")).collect();
        out.push(body);
    }
    out
}

fn split_case(t: &(String, usize), ctx: &mut Ctx) -> Res {
    let (body, variant) = t;
    let deep = |s: &str| -> String { s.lines().map(|l| format!("  {l}\n")).collect() };
    let (text, ops): (String, Vec<Op>) = match variant {
        0 => (
            format!("---\nl: &l x\nold: &o\n{body}tail: t\n"),
            split_ops(&Path::Root(vec![])),
        ),
        1 => (
            format!("---\nl: &l x\n# c\nnew: t # n\nold:\n{body}"),
            split_ops(&Path::Root(vec![])),
        ),
        2 => (
            format!("---\nl: &l x\nm:\n  - old: s\n  - z: 1\n    old:\n{}  - new:\n      q: r\n    old: *l\n", deep(&deep(body))),
            split_ops(&Path::Steps(vec![Step::Key("m".into(), vec![]), Step::All(vec![])])),
        ),
        _ => (
            format!("---\nl: &l x\nm:\n  old: # first\n{}", deep(body)),
            split_ops(&Path::Steps(vec![Step::Key("m".into(), vec![])])),
        ),
    };
    let d = must_parse(&text, ctx)?;
    for s in sunk(&d) {
        split_doc(&text, &s, &ops, ctx)?;
    }
    split_doc(&text, &d, &ops, ctx)
}

/// selectors of two entries, in every style
fn selectors() -> Vec<(String, usize)> {
    let texts = [
        "x", "' x'", "'x '", "\"x\\n\"", "X", "xx", "''", "' '", "~", "'~'", "1", "'1'", "\"1\"", "01", "1.0", "x.y", "x y", "x-y", "'x:y'", "é", "|\n      x\n", "|-\n      x\n",
        ">-\n      x\n      y\n", "*l", "&s x", "null", "[]", "{}", "'it''s'", "type", "old", "new", "keep",
    ];
    let mut out = Vec::new();
    for a in texts {
        for b in texts {
            out.push((format!("  e0:\n    type: {}\n    v: 1 # c\n  e1:\n    w: 2\n    type: {}\n", a.trim_end(), b.trim_end()), 0));
        }
    }
    out
}

fn selector_case(t: &(String, usize), ctx: &mut Ctx) -> Res {
    let text = format!("---\nl: &l x\nold: &o\n{}tail: t\n", t.0);
    let d = must_parse(&text, ctx)?;
    for keeps in [&[][..], &["x"], &["x y"], &[" x", "1"], &["X", "", "~"], &["x\n"]] {
        let keeps = keeps.iter().map(|s| s.to_string()).collect();
        let got = apply_checked(&d, &Op::Split(Path::Root(vec![]), "old".into(), "type".into(), "new".into(), keeps), ctx)?;
        ctx.state(&show(&got));
    }
    Ok(())
}

fn split_doc(text: &str, d: &Document, ops: &[Op], ctx: &mut Ctx) -> Res {
    for op in ops {
        let got = apply_checked(d, op, ctx)?;
        // nothing may get lost: every text and comment is still there, except for the selectors
        let before = inventory(d);
        let after = inventory(&got);
        let Op::Split(_, _, sel, _, _) = op else { unreachable!() };
        if sel != "type" {
            continue;
        }
        let lost: Vec<_> = before.iter().filter(|x| !after.contains(x) && !selector_text(x)).collect();
        if !lost.is_empty() {
            return viol(
                format!("lost {} on {}", op_text(op), text),
                format!("document:\n{text}\noperation {}\nloses {lost:?}:\n{}", op_text(op), show(&got)),
            );
        }
        ctx.state(&show(&got));
    }
    Ok(())
}

fn selector_text(x: &Ev) -> bool {
    match x {
        Ev::Key(k) => k == "type",
        Ev::Scalar(V::Plain(s)) | Ev::Scalar(V::Text(s)) => matches!(&s[..], "x" | "y" | "keep" | ""),
        // the comment on the line of a selector stays, see the comparison with the reference
        _ => false,
    }
}

fn inventory(d: &Document) -> Vec<Ev> {
    events(d).into_iter().filter(|e| !matches!(e, Ev::Open(_) | Ev::Close | Ev::Item)).collect()
}

fn split_ops(p: &Path) -> Vec<Op> {
    let mut out = Vec::new();
    for (old, new) in [("old", "new"), ("old", "n.w"), ("old", "old"), ("zz", "new"), ("old", "fresh")] {
        for keeps in [vec![], vec!["keep".to_string()], vec!["x".to_string(), "keep".to_string()]] {
            out.push(Op::Split(p.clone(), old.into(), "type".into(), new.into(), keeps));
        }
    }
    out.push(Op::Split(p.clone(), "old".into(), "t.ype".into(), "new".into(), vec![]));
    out.push(Op::Split(p.clone(), "old".into(), "v".into(), "new".into(), vec![]));
    out
}

fn c14(thorough: bool) -> Vec<Space> {
    let mut v = Vec::new();
    let n = if thorough { 4 } else { 3 };
    for k in 1..=n {
        let comments = if k <= 2 || (thorough && k == 3) { 4 } else { 1 };
        let mut items = Vec::new();
        for b in split_docs(k, comments) {
            for variant in 0..4 {
                if k == 4 && variant > 1 {
                    continue;
                }
                items.push((b.clone(), variant));
            }
        }
        v.push(list_space(&format!("maps of {k} entries x operations"), items, |(b, v)| format!("variant {v}:\n{b}"), split_case));
    }
    v.extend(names::spaces(names::Kind::Split));
    v.push(list_space("selector values", selectors(), |(b, v)| format!("variant {v}:\n{b}"), selector_case));
    v.push(big::split_space(thorough));
    // three entries with comments only before
    v.push(list_space(
        "maps of 3 entries with comments",
        split_docs(3, 2).into_iter().map(|b| (b, 0)).collect(),
        |(b, v)| format!("variant {v}:\n{b}"),
        split_case,
    ));
    v
}

// ------------------------------------------------------------------------------- C15

const SEEDS: &[&str] = &[
    "---\na: x # ca\nb:\n  a: y # cb\n  # cc\n  b: x\n# end\n",
    "---\n# top\na: # first\n  a: |\n    l1\n\n     l2\n  b: x # cb\nb: >-\n  f1\n  f2\n",
    "---\na:\n  - a: x # c0\n    b: y\n  # mid\n  - a: x\n  - - a: x\n      b: y\n    - x # i\n",
    "---\na: &p\n  a: x\n  b: *p\nb: &q x\nc:\n  - *q\n  - &r\n    a: y\n    b: *r\n",
    "---\na: {a: x, b: [x, y]}\nb: [x, {a: y}]\nc: {}\n",
    "---\na:\n  x1:\n    type: x # tx\n    v: 1\n  # before\n  y1:\n    type: y\n    v: |\n      t\n  k1: plain # kp\nb:\n  a: x\n",
    "# lead\n---\na: \"q\\n\n\n  r\" # c\nb: 'it''s\n\n  z'\nc: |-2\n    in\n  out\n",
    "---\n- a: x\n  b:\n    - a: y # c\n- a: y # d\n",
    "---\na:\n  b:\n    a:\n      b: x # deep\n      # deeper\n    # less\n  # even less\n# no\n",
    "---\na: |+\n  keep\n\nb: # k\n  - >\n    x\n\n    y\n  # after\n  - |\n    z\n",
];

fn c15_ops(small: bool) -> Vec<Op> {
    let pp = |t: &str| -> Path {
        if t.is_empty() {
            return Path::Root(vec![]);
        }
        read_path(t).flatten().unwrap_or_else(|| panic!("path {t}"))
    };
    let m = new_value();
    let lit = al(Yaml::LiteralString(vec!["one".into(), "".into(), " two".into()], BlockChomping::Clip));
    let plain = al(Yaml::UnquotedString("n".into()));
    let mut out = vec![
        Op::Insert(pp("n"), m.clone(), false),
        Op::Insert(pp("a"), lit.clone(), true),
        Op::Insert(pp("b.a"), plain.clone(), true),
        Op::Insert(pp("a[*].n"), lit.clone(), false),
        Op::Remove(pp("a")),
        Op::Remove(pp("b")),
        Op::Remove(pp("a.b")),
        Op::Remove(pp("b.a")),
        Op::Remove(pp("a[*].a")),
        Op::Remove(pp("a[*].b")),
        Op::Rename(pp("a"), "r".into()),
        Op::Rename(pp("b.a"), "r r".into()),
        Op::ToObject(pp("a"), "o".into()),
        Op::ToObject(pp("a[*].a"), "o".into()),
        Op::Sub(pp(""), "s".into(), vec!["a".into(), "b".into()]),
        Op::Sub(pp(""), "b".into(), vec!["a".into()]),
        Op::Sub(pp("a[*]"), "s".into(), vec!["b".into()]),
        Op::Split(pp(""), "a".into(), "type".into(), "new".into(), vec!["x".into()]),
        Op::Split(pp(""), "a".into(), "b".into(), "new".into(), vec![]),
    ];
    if !small {
        out.extend([
            Op::Remove(pp("a.a")),
            Op::Remove(pp("c")),
            Op::Remove(pp("a.b.a.b")),
            Op::Remove(pp("a[0].b|a=x")),
            Op::Rename(pp("a.b"), "a".into()),
            Op::ToObject(pp("b"), "o".into()),
            Op::ToObject(pp("a.a"), "a".into()),
            Op::Sub(pp("a"), "b".into(), vec!["a".into()]),
            Op::Sub(pp(""), "a".into(), vec!["b".into(), "c".into()]),
            Op::Insert(pp("a[2][0].a"), m.clone(), true),
            Op::Insert(pp("a.a"), m, true),
            Op::Insert(pp("c"), al(Yaml::InlineArray(vec![])), true),
            Op::Insert(pp("c"), al(Yaml::Hash(vec![])), true),
            Op::Split(pp(""), "a".into(), "type".into(), "new".into(), vec![]),
            Op::Split(pp(""), "b".into(), "a".into(), "a".into(), vec![]),
        ]);
    }
    out
}

fn written_and_read(d: &Document, history: &dyn Fn() -> String, ctx: &mut Ctx) -> Res {
    ctx.call(2);
    let t = format(d);
    let e = match parse(&t) {
        Ok(e) => e,
        Err(e) => {
            return viol(
                format!("unreadable after {}", history()),
                format!("{}\nthe edited document can't be parsed:\n{t}\n{}\n{:?}", history(), e.text, d.items),
            )
        }
    };
    ctx.compared();
    if abs_doc(&e) != abs_doc(d) {
        return viol(
            format!("changed after {}", history()),
            format!("{}\nthe edited document:\n{t}\nis      {:?}\nreads as {:?}", history(), abs_doc(d), abs_doc(&e)),
        );
    }
    let (c1, c2) = (comment_positions(&events(d)), comment_positions(&events(&e)));
    if c1 != c2 {
        return viol(
            format!("comments after {}", history()),
            format!("{}\nthe edited document:\n{t}\nhas     {c1:?}\nreads as {c2:?}", history()),
        );
    }
    ctx.state(&t);
    // and the same for its pretty version
    let data = |d: &Document| -> (V, Vec<Ev>) {
        (abs_doc(d).typed(), events(d).into_iter().filter(|e| matches!(e, Ev::Comment(_))).collect())
    };
    let p = d.clone().pretty();
    let text = format(&p);
    let read = match parse(&text) {
        Ok(e) => e,
        Err(e) => return viol(format!("unreadable after pretty, {}", history()), format!("{}\nthe pretty version of\n{t}\ncan't be parsed:\n{text}\n{}", history(), e.text)),
    };
    let want = data(d);
    for (what, e) in [("the pretty version", &p), ("the pretty version, read back,", &read)] {
        if data(e) != want {
            return viol(
                format!("changed after pretty, {}", history()),
                format!("{}\nthe edited document:\n{t}\nis      {want:?}\n{what} is\n{text}\n{:?}", history(), data(e)),
            );
        }
    }
    let twice = format(&p.clone().pretty());
    ctx.call(4);
    if twice != text {
        return viol(format!("pretty not stable after {}", history()), format!("{}\npretty:\n{text}\ntwice:\n{twice}", history()));
    }
    Ok(())
}

fn is_key(k: &str) -> bool {
    k.starts_with(|c: char| c.is_alphanumeric() || c == '_')
        && k.chars().all(|c| c.is_alphanumeric() || "_- ".contains(c))
}

fn c15_space(label: &str, depth: u32, small: bool, seeds: Vec<String>) -> Space {
    let ops = Arc::new(c15_ops(small));
    let seeds = Arc::new(seeds);
    let n = ops.len() as u64;
    let size = seeds.len() as u64 * n.pow(depth);
    let (o2, s2) = (ops.clone(), seeds.clone());
    let history = move |i: u64| {
        let mut dd = Dec(i);
        let mut hs: Vec<String> = (0..depth).map(|_| op_text(dd.of(&o2))).collect();
        hs.reverse();
        let seed = dd.of(&s2);
        format!("{seed}{}", hs.join("\n"))
    };
    let history = Arc::new(history);
    let h2 = history.clone();
    Space::new(label, size, move |i| h2(i), move |i, ctx| {
        let mut dd = Dec(i);
        let mut chosen: Vec<&Op> = (0..depth).map(|_| dd.of(&ops)).collect();
        chosen.reverse();
        let seed = dd.of(&seeds);
        let mut d = must_parse(seed, ctx)?;
        for (k, op) in chosen.iter().enumerate() {
            d = apply_checked(&d, op, ctx)?;
            if events(&d).iter().any(|x| matches!(x, Ev::Key(k) if !is_key(k))) {
                ctx.class("a value that was made a key isn't a key of the subset");
                return Ok(());
            }
            // prefixes of histories are cases of their own: check the document after the last
            // operation, which all lower depths did for the earlier ones
            if k + 1 == chosen.len() {
                written_and_read(&d, &|| history(i), ctx)?;
            }
        }
        Ok(())
    })
}

/// values of every kind, as a program may build them
fn inserted_values(thorough: bool) -> Vec<AliasedYaml> {
    let mut out = Vec::new();
    let mut trees = crate::text::trees_full(if thorough { 4 } else { 3 });
    trees.extend(crate::text::trees_block(if thorough { 5 } else { 4 }));
    trees.extend(crate::text::trees_varied(3));
    trees.extend(crate::text::trees_lines(3));
    for g in trees {
        for c in [&no_comments as &dyn Fn(usize) -> Option<String>, &all_comments] {
            if let Ok(d) = parse(&render(&g, &L0, c).0) {
                let value = root(&d).clone();
                for alias in [None, Some("new".to_string())] {
                    out.push(AliasedYaml { alias, value: value.clone() });
                }
                match value {
                    Yaml::Hash(h) => out.extend(h.into_iter().filter_map(|x| match x {
                        HashData::Element(e) => Some(e.value),
                        _ => None,
                    })),
                    Yaml::Array(a) => out.extend(a.into_iter().filter_map(|x| match x {
                        ArrayData::Element(e) => Some(e),
                        _ => None,
                    })),
                    _ => {}
                }
            }
        }
    }
    let blank = |n: usize| vec![String::new(); n];
    let mut bare = vec![Yaml::Hash(vec![]), Yaml::Array(vec![]), Yaml::InlineHash(vec![]), Yaml::InlineArray(vec![])];
    for n in 1..=3 {
        for c in [BlockChomping::Clip, BlockChomping::Strip, BlockChomping::Keep] {
            bare.push(Yaml::LiteralString(blank(n), c));
            bare.push(Yaml::FoldedString(blank(n), c));
        }
    }
    for v in bare {
        let e = |v: Yaml| HashData::Element(HashElement { key: "k".into(), value: al(v) });
        out.push(al(Yaml::Hash(vec![e(v.clone())])));
        out.push(al(Yaml::Array(vec![ArrayData::Element(al(v.clone())), ArrayData::Element(al(Yaml::Array(vec![ArrayData::Element(al(v.clone()))])))])));
        out.push(AliasedYaml { alias: Some("new".into()), value: v.clone() });
        out.push(al(v));
    }
    out.sort_by_cached_key(|v| format!("{v:?}"));
    out.dedup();
    out
}

fn insert_space(thorough: bool) -> Space {
    let seeds: Vec<Document> = SEEDS.iter().filter_map(|t| parse(t).ok()).collect();
    let values = inserted_values(thorough);
    // all of these differ only in the place, which is another matter than the value
    let places: &[&str] = if thorough {
        &["n", "a", "b.a", "a.b", "a[*].a", "c[0].n", "a[0].n", "b.n", "a.x1.n"]
    } else {
        &["n", "b.a", "a[*].a", "c[0].n"]
    };
    let overs: &[bool] = if thorough { &[false, true] } else { &[true] };
    let n = (places.len() * overs.len()) as u64;
    let data = Arc::new((seeds, values));
    let case = move |data: &(Vec<Document>, Vec<AliasedYaml>), i: u64| {
        let mut d = Dec(i);
        let over = *d.of(overs);
        let p = read_path(d.of(places)).flatten().expect("a path");
        let v = data.1[d.pick(data.1.len())].clone();
        (Op::Insert(p, v, over), d.pick(data.0.len()))
    };
    let d2 = data.clone();
    Space::new(
        "inserted values",
        n * (data.0.len() * data.1.len()) as u64,
        move |i| {
            let (op, s) = case(&d2, i);
            format!("{}\n{}", show(&d2.0[s]), op_text(&op))
        },
        move |i, ctx| {
            let (op, s) = case(&data, i);
            let d = &data.0[s];
            let got = apply_checked(d, &op, ctx)?;
            if got != *d {
                written_and_read(&got, &|| format!("{}\n{}", show(d), op_text(&op)), ctx)?;
            }
            Ok(())
        },
    )
}

fn c15(thorough: bool) -> Vec<Space> {
    let seeds: Vec<String> = SEEDS.iter().map(|s| s.to_string()).collect();
    let mut v = vec![
        c15_space("histories of 1 operation", 1, false, seeds.clone()),
        c15_space("histories of 2 operations", 2, false, seeds.clone()),
        c15_space("histories of 3 operations", 3, false, seeds.clone()),
    ];
    let texts = |n: usize| -> Vec<String> { docs_of(&edit_trees(n)).iter().map(|d| show(d) + "\n").collect() };
    v.push(c15_space("trees x histories of 1 operation", 1, false, texts(5)));
    v.push(c15_space("trees x histories of 2 operations", 2, true, texts(4)));
    v.push(insert_space(thorough));
    v.push(lots::name_space(thorough));
    v.push(lots::periodic_space(thorough, seeds.clone()));
    v.push(lots::big(thorough));
    if thorough {
        v.push(c15_space("histories of 4 operations", 4, false, seeds));
        v.push(c15_space("larger trees x histories of 2 operations", 2, false, texts(5)));
    }
    v
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "every text of the enumerated spaces is read as a path by the real parser and by an independent reader; every pair of paths is appended and compared as a structure and by what it finds in documents",
            assumptions: &["spaces next to the path syntax are not decided (only that they don't crash)"],
            spaces: c09,
        },
        Property {
            id: "C10",
            rule: "every path is looked up in every document and the values are compared with those at the places an independent evaluator lists",
            assumptions: &["documents are what the parser produced for rendered trees (decided by C02)"],
            spaces: c10,
        },
        Property {
            id: "C11",
            rule: "every insert and remove operation is executed on every document; document and count are compared with an independent implementation of the operation",
            assumptions: &["documents are what the parser produced for rendered trees (decided by C02)"],
            spaces: c11,
        },
        Property {
            id: "C12",
            rule: "every rename and wrap operation is executed on every document; document and count are compared with an independent implementation of the operation",
            assumptions: &["documents are what the parser produced for rendered trees (decided by C02)"],
            spaces: c12,
        },
        Property {
            id: "C13",
            rule: "every move to a subfield is executed on every document; document and count are compared with an independent implementation that moves one field after the other",
            assumptions: &["documents are what the parser produced for rendered trees (decided by C02)"],
            spaces: c13,
        },
        Property {
            id: "C14",
            rule: "every split is executed on every document; document and count are compared with an independent two pass implementation, and no key, scalar, anchor or comment may get lost",
            assumptions: &["documents are what the parser produced for rendered trees (decided by C02)"],
            spaces: c14,
        },
        Property {
            id: "C15",
            rule: "every history of operations is executed from every seed document; after it the document is compared with the reference, written, parsed, and compared again (data, anchors, comment positions)",
            assumptions: &["names and values that are inserted are valid in the subset, and so are the values that a split makes keys of"],
            spaces: c15,
        },
    ]
}
