//! Option domains: a set of settings with hand-written effects on the facts of a written part, and the exhaustive
//! exploration of their sequences. The model state is the option in force for each group (the last one set); the
//! expected facts are the facts of the object without options, changed by the effects of the options in force.
use crate::engine::{seq, seqs, Dig, Rec, Run};
use crate::xml::{El, Node};
use std::collections::BTreeMap;

pub type Flat = BTreeMap<String, String>;
pub type R = Result<(), String>;

/// An element as a map from path to text and from path@attribute to value; the n-th sibling of a name is `name[n]`.
pub fn flatten(e: &El, path: &str, out: &mut Flat) {
    let mut text = String::new();
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    for k in &e.kids {
        match k {
            Node::Text(t) => text.push_str(t),
            Node::El(c) => {
                let n = seen.entry(c.name.as_str()).or_insert(0);
                *n += 1;
                let sub = if *n == 1 { format!("{path}/{}", c.name) } else { format!("{path}/{}[{n}]", c.name) };
                flatten(c, &sub, out);
            }
        }
    }
    out.insert(path.into(), text);
    for (k, v) in &e.attrs {
        out.insert(format!("{path}@{k}"), v.clone());
    }
}
pub fn flat(e: &El, path: &str) -> Flat {
    let mut m = Flat::new();
    flatten(e, path, &mut m);
    m
}
fn add_path(m: &mut Flat, p: &str) {
    let mut i = 0;
    while let Some(j) = p[i..].find('/') {
        m.entry(p[..i + j].to_string()).or_default();
        i += j + 1;
    }
    m.entry(p.to_string()).or_default();
}
/// Apply `path@attr=value`, `path=text`, `path`, `-path` (with everything below) or `-path@attr`.
pub fn edit(m: &mut Flat, ed: &str) {
    // Blanks at the ends don't count; those meant are written as names.
    let ed = ed.trim();
    let ed = &ed.replace("{SP}", " ").replace("{NL}", "\n").replace("{SC}", ";");
    if ed.is_empty() {
        return;
    }
    if let Some(p) = ed.strip_prefix('-') {
        if p.contains('@') {
            m.remove(p);
        } else {
            let dead: Vec<String> = m.keys().filter(|k| k.as_str() == p || (k.starts_with(p) && matches!(k.as_bytes()[p.len()], b'/' | b'@'))).cloned().collect();
            for k in dead {
                m.remove(&k);
            }
        }
        return;
    }
    // The first '=' ends the path; paths hold none.
    match ed.split_once('=') {
        Some((p, v)) => {
            let el = p.split('@').next().unwrap();
            add_path(m, el);
            m.insert(p.to_string(), v.to_string());
        }
        None => add_path(m, ed),
    }
}
pub fn edits(m: &mut Flat, eds: &str) {
    for x in eds.split(';') {
        edit(m, x);
    }
}
pub type Apply<T> = Box<dyn Fn(&mut T) -> R + Send + Sync>;
pub struct Opt<T: ?Sized> {
    pub name: String,
    pub group: String,
    pub apply: Apply<T>,
    pub want: String,
}
/// The model state: the options set so far, in order, and which of them are in force.
pub struct St<'a> {
    pub seq: Vec<&'a str>,
    pub force: BTreeMap<&'a str, &'a str>,
    /// The effects of the options in force, by group.
    pub wants: BTreeMap<&'a str, &'a str>,
}
impl St<'_> {
    /// Is this option in force?
    pub fn on(&self, n: &str) -> bool {
        self.force.values().any(|x| *x == n)
    }
    /// Is any option of the group in force?
    pub fn grp(&self, g: &str) -> bool {
        self.force.contains_key(g)
    }
    pub fn was(&self, n: &str) -> bool {
        self.seq.contains(&n)
    }
    /// Apply the effects of the option in force in a group again.
    pub fn again(&self, g: &str, m: &mut Flat) {
        if let Some(w) = self.wants.get(g) {
            edits(m, w);
        }
    }
    /// Position of the last setting of an option of that name.
    pub fn last(&self, n: &str) -> Option<usize> {
        self.seq.iter().rposition(|x| *x == n)
    }
}
pub type Rule = fn(&St, &mut Flat);
pub struct Dom<T: ?Sized> {
    pub name: String,
    pub opts: Vec<Opt<T>>,
    pub base: Flat,
    pub rule: Rule,
}
impl<T: ?Sized> Dom<T> {
    pub fn state<'a>(&'a self, s: &[usize]) -> St<'a> {
        let mut st = St { seq: vec![], force: BTreeMap::new(), wants: BTreeMap::new() };
        for i in s {
            let o = &self.opts[*i];
            st.seq.push(&o.name);
            st.force.insert(&o.group, &o.name);
            st.wants.insert(&o.group, &o.want);
        }
        st
    }
    pub fn expect(&self, s: &[usize]) -> Flat {
        let mut m = self.base.clone();
        let mut force: BTreeMap<&str, usize> = BTreeMap::new();
        for i in s {
            force.insert(&self.opts[*i].group, *i);
        }
        // In the order of the last setting.
        let mut v: Vec<usize> = force.into_values().collect();
        v.sort_by_key(|i| s.iter().rposition(|x| x == i));
        for i in v {
            edits(&mut m, &self.opts[i].want);
        }
        (self.rule)(&self.state(s), &mut m);
        // Nothing is written when the object is refused.
        if m.contains_key("refused") {
            m.retain(|k, _| k == "refused");
        }
        m
    }
    pub fn desc(&self, s: &[usize]) -> String {
        s.iter().map(|i| self.opts[*i].name.as_str()).collect::<Vec<_>>().join(", ")
    }
}
/// First differences between the expected and the written facts.
pub fn compare(want: &Flat, got: &Flat) -> R {
    let mut d = vec![];
    for (k, w) in want {
        match got.get(k) {
            None => d.push(format!("{k}: expected {w:?}, found nothing")),
            Some(g) if g != w => d.push(format!("{k}: expected {w:?}, found {g:?}")),
            _ => {}
        }
    }
    for (k, g) in got {
        if !want.contains_key(k) {
            d.push(format!("{k}: unexpected {g:?}"));
        }
    }
    if d.is_empty() {
        return Ok(());
    }
    let n = d.len();
    d.truncate(6);
    Err(format!("{n} differences: {}", d.join("; ")))
}
/// Explore all sequences up to `depth`, and all options on top of everything else.
pub fn explore<T: ?Sized, O>(run: &mut Run, d: &Dom<T>, depth: u32, observe: O)
where
    O: Fn(&[&Opt<T>]) -> Result<Flat, String> + Sync,
{
    let k = d.opts.len() as u64;
    let one = |s: &[usize], rec: &mut Rec| -> R {
        rec.describe(|| if s.is_empty() { "no options".to_string() } else { d.desc(s) });
        rec.steps(s.len());
        let want = d.expect(s);
        rec.state(&want);
        let sel: Vec<&Opt<T>> = s.iter().map(|i| &d.opts[*i]).collect();
        let got = observe(&sel)?;
        rec.trace();
        rec.seen(&got);
        compare(&want, &got)
    };
    run.explore(&format!("{}: option sequences", d.name), seqs(k, depth), |i, rec| one(&seq(i, k), rec));
    // Everything at once: one option of every group, then one more.
    let mut groups: Vec<Vec<usize>> = vec![];
    for (i, o) in d.opts.iter().enumerate() {
        match groups.iter_mut().find(|g| d.opts[g[0]].group == o.group) {
            Some(g) => g.push(i),
            None => groups.push(vec![i]),
        }
    }
    let vars = groups.iter().map(|g| g.len()).max().unwrap_or(1).min(6);
    run.explore(&format!("{}: all options at once", d.name), k * vars as u64 * 2, |i, rec| {
        let mut g = Dig(i);
        let (o, v, rev) = (g.take(k as usize), g.take(vars), g.flag());
        let mut s: Vec<usize> = groups.iter().enumerate().map(|(j, g)| g[(v + if rev { j } else { 0 }) % g.len()]).collect();
        if rev {
            s.reverse();
        }
        s.push(o);
        one(&s, rec)
    });
    // All options of all groups but one: nothing else may have been carrying it.
    run.explore(&format!("{}: all groups but one", d.name), groups.len() as u64 * vars as u64, |i, rec| {
        let mut g = Dig(i);
        let (x, v) = (g.take(groups.len()), g.take(vars));
        let s: Vec<usize> = groups.iter().enumerate().filter(|(j, _)| *j != x).map(|(j, g)| g[(v + j) % g.len()]).collect();
        one(&s, rec)
    });
}
/// Print the observed effect of each option (development aid).
pub fn dump<T: ?Sized, O>(d: &Dom<T>, observe: O)
where
    O: Fn(&[&Opt<T>]) -> Result<Flat, String>,
{
    let base = match observe(&[]) {
        Ok(b) => b,
        Err(e) => {
            println!("base: {e}");
            return;
        }
    };
    if std::env::var_os("RXMC_BASE").is_some() {
        for (k, v) in &base {
            println!("  {k} = {v}");
        }
    }
    for o in &d.opts {
        let got = match observe(&[o]) {
            Ok(g) => g,
            Err(e) => {
                println!("{} [{}]: {e}", o.name, o.group);
                continue;
            }
        };
        let mut s = vec![];
        for (k, v) in &got {
            if base.get(k) != Some(v) {
                s.push(if v.is_empty() { k.clone() } else { format!("{k}={v}") });
            }
        }
        for k in base.keys() {
            if !got.contains_key(k) {
                s.push(format!("-{k}"));
            }
        }
        // Drop element entries implied by longer ones.
        let t: Vec<String> = s.iter().filter(|x| !s.iter().any(|y| y.len() > x.len() && y.starts_with(x.as_str()) && matches!(y.as_bytes()[x.len()], b'/' | b'@'))).cloned().collect();
        println!("{} [{}] => {}", o.name, o.group, t.join(";"));
    }
}
/// An option: name, group, action, effect.
#[macro_export]
macro_rules! opt {
    ($v:expr, $name:expr, $group:expr, $f:expr, $want:expr) => {
        $v.push($crate::opt::Opt { name: $name.to_string(), group: $group.to_string(), apply: Box::new($f), want: $want.to_string() })
    };
}
