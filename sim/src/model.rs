//! The reference model: what loading and parsing a world must give, by the stated properties.
//! It works on the generator's items and the simulated file system's state, never on the library.
use crate::scen::*;
use crate::sim::{FKind, Fault};
use crate::vfs::{Node, Vfs};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Errno(i32),
    Utf8,
}

impl Fail {
    pub fn cause(&self) -> String {
        match self {
            Fail::Errno(e) => std::io::Error::from_raw_os_error(*e).to_string(),
            Fail::Utf8 => "UTF-8".to_string(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct ExpErr {
    pub file: usize,
    pub start: usize,
    pub end: usize,
    /// must be the exact span, otherwise within
    pub exact: bool,
    /// each must occur in message or reason; any of the alternatives separated by \u{0}
    pub says: Vec<String>,
    pub what: &'static str,
}

/// where in the traversal: (position in file, which of several matches) for each level
pub type PathKey = Vec<(usize, usize)>;

#[derive(Clone, Debug)]
pub struct ExpDir {
    pub file: usize,
    pub item: usize,
    pub tags: BTreeSet<String>,
    pub meta: BTreeMap<String, String>,
    /// label, file, start, end: spans of what was pushed
    pub pushed: Vec<(String, usize, usize, usize)>,
    pub key: PathKey,
}

#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub load_err: Option<Fail>,
    pub dirs: Vec<ExpDir>,
    pub errors: Vec<ExpErr>,
    pub plugins: Vec<(String, Option<String>)>,
    /// options by name, with file of origin
    pub opts: Vec<(String, String, usize)>,
    /// files whose content is part of the ledger
    pub files: BTreeSet<usize>,
    pub several: bool,
    /// some file was met more than once
    pub repeats: bool,
}

impl std::fmt::Debug for Model<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Model")
    }
}

pub struct Model<'a> {
    pub w: &'a World,
    pub vfs: Vfs,
    by_canon: HashMap<String, usize>,
    starts: Vec<Vec<usize>>,
    pub texts: Vec<String>,
    fails: BTreeMap<String, Fail>,
    unstat: BTreeSet<String>,
    baddirs: BTreeMap<String, i32>,
    /// in which order the matches of a wildcard are taken
    order: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Match {
    File(usize, String), // index, path as named
    /// exists but is not one of the files: a directory, a dangling link
    Odd(String, String, Option<Fail>), // canonical, as named
    DirErr(String, i32),
}

pub struct Point {
    pub file: usize,
    pub pos: usize,
    pub shared: bool,
}

#[derive(Clone, Default, PartialEq, Debug)]
struct PushCtx {
    tags: BTreeMap<String, Vec<(usize, usize, usize)>>,
    meta: BTreeMap<String, Vec<(String, usize, usize)>>,
}

impl PushCtx {
    fn same(&self, o: &PushCtx) -> bool {
        let t = |c: &PushCtx| c.tags.iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>();
        let m = |c: &PushCtx| c.meta.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.0.clone()).collect::<Vec<_>>())).collect::<Vec<_>>();
        t(self) == t(o) && m(self) == m(o)
    }
}

fn meta_chars(s: &str) -> bool {
    s.contains(['*', '?', '['])
}

pub fn pattern_error(p: &str) -> bool {
    // as documented for glob::Pattern: *** or ** not alone in a component, or an unclosed [
    for c in p.split('/') {
        if c.contains("**") && c != "**" {
            return true;
        }
        let mut rest = c;
        while let Some(i) = rest.find('[') {
            let body = &rest[i + 1..];
            let from = if body.starts_with('!') { 2 } else { 1 };
            match body.char_indices().skip(from).find(|(_, ch)| *ch == ']') {
                Some((j, _)) => rest = &body[j + 1..],
                None => return true,
            }
        }
    }
    false
}

/// one path component against one pattern component
pub fn match_component(pat: &[char], s: &[char], first: bool) -> bool {
    if first && s.first() == Some(&'.') && pat.first() != Some(&'.') {
        return false;
    }
    match pat.first() {
        None => s.is_empty(),
        Some('*') => (0..=s.len()).any(|k| match_component(&pat[1..], &s[k..], false)),
        Some('?') => !s.is_empty() && match_component(&pat[1..], &s[1..], false),
        Some('[') => {
            if s.is_empty() {
                return false;
            }
            let neg = pat.get(1) == Some(&'!');
            let b = if neg { 2 } else { 1 };
            let Some(close) = pat.iter().enumerate().skip(b + 1).find(|(_, c)| **c == ']').map(|(i, _)| i) else {
                return false;
            };
            let set = &pat[b..close];
            let mut hit = false;
            let mut i = 0;
            while i < set.len() {
                if i + 2 < set.len() && set[i + 1] == '-' {
                    if set[i] <= s[0] && s[0] <= set[i + 2] {
                        hit = true;
                    }
                    i += 3;
                } else {
                    if set[i] == s[0] {
                        hit = true;
                    }
                    i += 1;
                }
            }
            hit != neg && match_component(&pat[close + 1..], &s[1..], false)
        }
        Some(c) => s.first() == Some(c) && match_component(&pat[1..], &s[1..], false),
    }
}

impl<'a> Model<'a> {
    pub fn new(w: &'a World) -> Self {
        Self::with_faults(w, &[])
    }

    pub fn with_faults(w: &'a World, faults: &[Fault]) -> Self {
        let vfs = w.vfs();
        let mut by_canon = HashMap::new();
        for (i, f) in w.files.iter().enumerate() {
            if i == 0 && w.inline {
                continue;
            }
            by_canon.insert(f.path.clone(), i);
        }
        let texts: Vec<String> = w.files.iter().map(|f| f.text()).collect();
        let starts = w
            .files
            .iter()
            .map(|f| {
                let mut o = 0;
                f.items
                    .iter()
                    .map(|i| {
                        let s = o;
                        o += i.text().len();
                        s
                    })
                    .collect()
            })
            .collect();
        let mut fails: BTreeMap<String, Fail> = BTreeMap::new();
        let mut unstat = BTreeSet::new();
        let mut baddirs = BTreeMap::new();
        for f in &w.files {
            if let Some(raw) = &f.raw {
                if std::str::from_utf8(raw).is_err() {
                    fails.insert(f.path.clone(), Fail::Utf8);
                }
            }
        }
        for op in ["read", "open", "realpath"] {
            for f in faults.iter().filter(|f| f.op == op) {
                match &f.kind {
                    FKind::Errno(e) => {
                        fails.insert(f.path.clone(), Fail::Errno(*e));
                    }
                    FKind::ReadErrAt(off, e) => {
                        let len = w.files.iter().find(|x| x.path == f.path).map(|x| x.bytes().len() as u64);
                        if len.is_some_and(|l| *off <= l) {
                            fails.insert(f.path.clone(), Fail::Errno(*e));
                        }
                    }
                    _ => {}
                }
            }
        }
        for f in faults {
            match (f.op.as_str(), &f.kind) {
                ("stat", _) => {
                    unstat.insert(f.path.clone());
                }
                ("opendir", FKind::Errno(e)) => {
                    baddirs.insert(f.path.clone(), *e);
                }
                ("readdir", FKind::ReaddirErrAfter(n, e)) => {
                    // "." and ".." come first
                    let listed = match vfs.resolve(f.path.as_bytes(), true).map(|x| &vfs.nodes[x.ino]) {
                        Ok(Node::Dir(entries, _)) => entries.len() + 2,
                        _ => 0,
                    };
                    if *n as usize <= listed {
                        baddirs.entry(f.path.clone()).or_insert(*e);
                    }
                }
                _ => {}
            }
        }
        Model { w, vfs, by_canon, starts, texts, fails, unstat, baddirs, order: 0 }
    }

    pub fn item_start(&self, f: usize, i: usize) -> usize {
        self.starts[f][i]
    }

    pub fn line_of(&self, f: usize, off: usize) -> usize {
        1 + self.texts[f].as_bytes()[..off.min(self.texts[f].len())].iter().filter(|b| **b == b'\n').count()
    }

    pub fn dir_of(&self, f: usize) -> String {
        if f == 0 && self.w.inline {
            return self.w.cwd.clone();
        }
        let p = &self.w.files[f].path;
        let d = &p[..p.rfind('/').unwrap()];
        if d.is_empty() {
            "/".into()
        } else {
            d.into()
        }
    }

    fn classify(&self, path: &str) -> Match {
        match self.vfs.resolve(path.as_bytes(), true) {
            Ok(f) => {
                let canon = String::from_utf8_lossy(&f.canon).into_owned();
                match self.by_canon.get(&canon) {
                    Some(i) if matches!(self.vfs.nodes[f.ino], Node::File(_)) => Match::File(*i, path.to_string()),
                    _ => {
                        let fail = match self.vfs.nodes[f.ino] {
                            Node::Dir(..) => Some(self.fails.get(&canon).cloned().unwrap_or(Fail::Errno(libc::EISDIR))),
                            _ => None,
                        };
                        Match::Odd(canon, path.to_string(), fail)
                    }
                }
            }
            Err(e) => Match::Odd(path.to_string(), path.to_string(), Some(Fail::Errno(e))),
        }
    }

    /// what an include names, and the directories that have to be listed for it
    pub fn expand(&self, dir: &str, pat: &str, read_dirs: &mut BTreeSet<String>) -> Vec<Match> {
        let start = if pat.starts_with('/') { "/".to_string() } else { dir.to_string() };
        if !meta_chars(pat) {
            let full = if pat.starts_with('/') { pat.to_string() } else { format!("{}/{}", start, pat) };
            return match self.vfs.resolve(full.as_bytes(), true) {
                Ok(f) => {
                    let canon = String::from_utf8_lossy(&f.canon).into_owned();
                    if self.unstat.contains(&canon) {
                        vec![]
                    } else {
                        vec![self.classify(&full)]
                    }
                }
                Err(_) => vec![],
            };
        }
        let comps: Vec<&str> = pat.split('/').filter(|c| !c.is_empty()).collect();
        let mut out = vec![];
        self.walk(&start, &comps, &mut out, read_dirs);
        out
    }

    fn join(d: &str, n: &str) -> String {
        if d.ends_with('/') {
            format!("{}{}", d, n)
        } else {
            format!("{}/{}", d, n)
        }
    }

    fn list(&self, d: &str, out: &mut Vec<Match>, read_dirs: &mut BTreeSet<String>) -> Option<Vec<(String, bool)>> {
        let f = self.vfs.resolve(d.as_bytes(), true).ok()?;
        let Node::Dir(e, _) = &self.vfs.nodes[f.ino] else { return None };
        let canon = String::from_utf8_lossy(&f.canon).into_owned();
        read_dirs.insert(canon.clone());
        if let Some(errno) = self.baddirs.get(&canon) {
            out.push(Match::DirErr(canon, *errno));
            return None;
        }
        Some(
            e.keys()
                .map(|k| {
                    let n = String::from_utf8_lossy(k).into_owned();
                    let is_dir = self.vfs.resolve(Self::join(d, &n).as_bytes(), true).is_ok_and(|f| self.vfs.is_dir(f.ino));
                    (n, is_dir)
                })
                .collect(),
        )
    }

    fn walk(&self, cur: &str, comps: &[&str], out: &mut Vec<Match>, rd: &mut BTreeSet<String>) {
        let Some(c) = comps.first() else { return };
        let last = comps.len() == 1;
        if !meta_chars(c) {
            let p = Self::join(cur, c);
            if let Ok(f) = self.vfs.resolve(p.as_bytes(), true) {
                if last {
                    out.push(self.classify(&p));
                } else if self.vfs.is_dir(f.ino) {
                    self.walk(&p, &comps[1..], out, rd);
                }
            }
            return;
        }
        let Some(entries) = self.list(cur, out, rd) else { return };
        if *c == "**" {
            // zero or more directories
            if last {
                for (n, is_dir) in &entries {
                    if *is_dir && !n.starts_with('.') {
                        out.push(self.classify(&Self::join(cur, n)));
                    }
                }
            } else {
                self.walk(cur, &comps[1..], out, rd);
            }
            for (n, is_dir) in &entries {
                if *is_dir && !n.starts_with('.') {
                    self.walk(&Self::join(cur, n), comps, out, rd);
                }
            }
            return;
        }
        let pc: Vec<char> = c.chars().collect();
        for (n, is_dir) in &entries {
            let nc: Vec<char> = n.chars().collect();
            if match_component(&pc, &nc, true) {
                let p = Self::join(cur, n);
                if last {
                    out.push(self.classify(&p));
                } else if *is_dir {
                    self.walk(&p, &comps[1..], out, rd);
                }
            }
        }
    }

    fn fail_of(&self, f: usize) -> Option<&Fail> {
        self.fails.get(&self.w.files[f].path)
    }

    /// whether it matters in which order the matches of a wildcard are taken
    pub fn ambiguous(w: &'a World) -> bool {
        let mut m = Self::new(w);
        let mut look = |k: u64| {
            m.order = k;
            let e = m.expect();
            let mut ds: Vec<_> = e.dirs.into_iter().map(|d| (d.file, d.item, d.tags, d.meta, d.pushed)).collect();
            ds.sort();
            let mut es: Vec<_> = e.errors.into_iter().map(|x| (x.file, x.start, x.end, x.what)).collect();
            es.sort();
            let mut os: Vec<_> = e.opts;
            os.sort();
            (e.several, ds, es, os)
        };
        let a = look(0);
        a.0 && (1..4).any(|k| look(k) != a)
    }

    /// before each item in the order of the traversal
    pub fn traversal_points(&self) -> Vec<Point> {
        let mut out = vec![];
        let mut claimed = BTreeSet::from([0usize]);
        self.points(0, false, &mut claimed, &mut out);
        out
    }

    fn points(&self, f: usize, shared: bool, claimed: &mut BTreeSet<usize>, out: &mut Vec<Point>) {
        for (i, it) in self.w.files[f].items.iter().enumerate() {
            out.push(Point { file: f, pos: i, shared });
            if let Item::Include { pat, .. } = it {
                let ms = self.expand(&self.dir_of(f), pat, &mut BTreeSet::new());
                let fs: Vec<usize> = ms
                    .iter()
                    .filter_map(|m| match m {
                        Match::File(i, _) => Some(*i),
                        _ => None,
                    })
                    .collect();
                let several = fs.len() > 1;
                let fresh: Vec<usize> = fs.into_iter().filter(|i| claimed.insert(*i)).collect();
                for g in fresh {
                    self.points(g, shared || several, claimed, out);
                }
            }
        }
        out.push(Point { file: f, pos: self.w.files[f].items.len(), shared });
    }

    pub fn expect(&self) -> Exp {
        let mut e = Exp::default();
        if !self.w.inline {
            if let Some(f) = self.fail_of(0) {
                e.load_err = Some(f.clone());
                return e;
            }
        }
        let mut st = Walk { claimed: BTreeMap::new(), ctx: PushCtx::default(), seen1: BTreeMap::new(), seenv: BTreeSet::new(), repeats: false };
        e.files.insert(0);
        self.visit(0, &mut vec![], &mut st, &mut e);
        e.repeats = st.repeats;
        for (key, vals) in &st.ctx.meta {
            // the key as first pushed of those still there is where it is reported; one is enough
            let _ = key;
            let (_, f, i) = &vals[0];
            let m = self.w.files[*f].items[*i].mark("key").unwrap();
            let s = self.starts[*f][*i];
            e.errors.push(ExpErr { file: *f, start: s + m.1, end: s + m.2, exact: false, says: vec!["pushmeta".into()], what: "leftover-meta" });
        }
        for vals in st.ctx.tags.values() {
            for (f, a, b) in vals {
                e.errors.push(ExpErr { file: *f, start: *a, end: *b, exact: false, says: vec!["pushtag".into()], what: "leftover-tag" });
            }
        }
        e
    }

    fn visit(&self, f: usize, key: &mut PathKey, st: &mut Walk, e: &mut Exp) {
        let mut lost = false;
        for (i, it) in self.w.files[f].items.iter().enumerate() {
            let s = self.starts[f][i];
            match it {
                Item::Dir { tags, meta, .. } => {
                    let mut t: BTreeSet<String> = tags.iter().cloned().collect();
                    let mut m: BTreeMap<String, String> = meta.iter().cloned().collect();
                    let mut pushed = vec![];
                    for (tag, sp) in &st.ctx.tags {
                        if t.insert(tag.clone()) {
                            let (pf, a, b) = *sp.last().unwrap();
                            pushed.push((format!("tag:{}", tag), pf, a, b));
                        }
                    }
                    for (k, vals) in &st.ctx.meta {
                        if !m.contains_key(k) {
                            let (v, pf, pi) = vals.last().unwrap();
                            m.insert(k.clone(), v.clone());
                            let it = &self.w.files[*pf].items[*pi];
                            let ps = self.starts[*pf][*pi];
                            for (lab, mk) in [("key", "key"), ("val", "val")] {
                                let Some(m) = it.mark(mk) else { continue };
                                pushed.push((format!("{}:{}", lab, k), *pf, ps + m.1, ps + m.2));
                            }
                        }
                    }
                    let mut pk = key.clone();
                    pk.push((i, 0));
                    e.dirs.push(ExpDir { file: f, item: i, tags: t, meta: m, pushed, key: pk });
                }
                Item::PushTag { tag, marks, .. } => {
                    st.ctx.tags.entry(tag.clone()).or_default().push((f, s + marks[0].1, s + marks[0].2));
                }
                Item::PopTag { tag, marks, .. } => {
                    let gone = match st.ctx.tags.get_mut(tag) {
                        Some(v) => {
                            v.pop();
                            v.is_empty()
                        }
                        None => {
                            e.errors.push(ExpErr { file: f, start: s + marks[0].1, end: s + marks[0].2, exact: true, says: vec!["poptag".into()], what: "unmatched-pop" });
                            false
                        }
                    };
                    if gone {
                        st.ctx.tags.remove(tag);
                    }
                }
                Item::PushMeta { key: k, val, .. } => {
                    st.ctx.meta.entry(k.clone()).or_default().push((val.clone(), f, i));
                }
                Item::PopMeta { key: k, marks, .. } => {
                    let gone = match st.ctx.meta.get_mut(k) {
                        Some(v) => {
                            v.pop();
                            v.is_empty()
                        }
                        None => {
                            e.errors.push(ExpErr { file: f, start: s + marks[0].1, end: s + marks[0].2, exact: true, says: vec!["popmeta".into()], what: "unmatched-pop" });
                            false
                        }
                    };
                    if gone {
                        st.ctx.meta.remove(k);
                    }
                }
                Item::Include { pat, marks, .. } => {
                    let at = (s + marks[0].1, s + marks[0].2);
                    self.include(f, i, pat, at, key, st, e);
                }
                Item::Opt { name, value, .. } => {
                    let nm = it.mark("name").unwrap();
                    let vm = it.mark("value").unwrap();
                    if name.starts_with("name_") || name == "long_string_maxlines" {
                        e.opts.push((name.clone(), value.clone(), f));
                    } else if name == "documents" || name == "operating_currency" || name == "inferred_tolerance_default" {
                        let k = match name.as_str() {
                            "documents" => format!("d{}/{}", self.dir_of(f), value),
                            "operating_currency" => format!("o{}", value),
                            _ => format!("t{}", value.split(':').next().unwrap()),
                        };
                        if st.seenv.insert(k) {
                            e.opts.push((name.clone(), value.clone(), f));
                        } else {
                            e.errors.push(ExpErr { file: f, start: s + vm.1, end: s + vm.2, exact: true, says: vec!["duplicate".into()], what: "duplicate-option-value" });
                        }
                    } else if st.seen1.insert(name.clone(), ()).is_none() {
                        e.opts.push((name.clone(), value.clone(), f));
                    } else {
                        e.errors.push(ExpErr { file: f, start: s + nm.1, end: s + nm.2, exact: true, says: vec!["duplicate".into()], what: "duplicate-option" });
                    }
                }
                Item::Plugin { module, config, .. } => e.plugins.push((module.clone(), config.clone())),
                Item::Trivia { .. } => {}
                Item::Bad { text, marks } => {
                    if lost {
                        // recovery from the one before may skip this one
                        e.errors.push(ExpErr { file: f, start: s, end: s + text.len(), exact: false, says: vec![], what: "maybe" });
                    } else if marks.is_empty() {
                        e.errors.push(ExpErr { file: f, start: s, end: s + text.len(), exact: false, says: vec![], what: "syntax" });
                    } else {
                        for m in marks {
                            e.errors.push(ExpErr { file: f, start: s + m.1, end: s + m.2, exact: true, says: vec![m.0.clone()], what: "bad" });
                        }
                    }
                    lost |= marks.is_empty() || marks.iter().any(|m| m.0 == "division by zero");
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn include(&self, f: usize, i: usize, pat: &str, at: (usize, usize), key: &mut PathKey, st: &mut Walk, e: &mut Exp) {
        let mut err = |what: &'static str, says: Vec<String>| {
            e.errors.push(ExpErr { file: f, start: at.0, end: at.1, exact: true, says, what });
        };
        if pattern_error(pat) {
            err("bad-pattern", vec![]);
            return;
        }
        let mut ms = self.expand(&self.dir_of(f), pat, &mut BTreeSet::new());
        match self.order {
            0 => {}
            1 => ms.reverse(),
            k => ms.sort_by_key(|m| crate::rng::mix(crate::rng::fnv(format!("{:?}", m).as_bytes()) ^ k)),
        }
        if ms.is_empty() {
            err("no-match", vec![]);
            return;
        }
        let base = |p: &str| p.rsplit('/').next().unwrap().to_string();
        let mut fresh = vec![];
        for m in &ms {
            match m {
                Match::DirErr(_, errno) => err("unreadable-dir", vec![Fail::Errno(*errno).cause()]),
                Match::Odd(canon, named, fail) => {
                    if let Some(fl) = fail {
                        err("unreadable", vec![format!("{}\u{0}{}", base(canon), base(named)), fl.cause()]);
                    }
                }
                Match::File(g, named) => {
                    if let (Some(fl), true) = (self.fail_of(*g), *g != 0) {
                        err("unreadable", vec![format!("{}\u{0}{}\u{0}{}", base(&self.w.files[*g].path), base(named), self.aliases(*g).join("\u{0}")), fl.cause()]);
                    } else if *g == 0 {
                        err("duplicate-root", vec!["duplicate include".into()]);
                    } else if let Some(first) = st.claimed.get(g) {
                        st.repeats = true;
                        if !first.same(&st.ctx) {
                            err("duplicate", vec!["duplicate include".into()]);
                        }
                    } else {
                        st.claimed.insert(*g, st.ctx.clone());
                        fresh.push(*g);
                    }
                }
            }
        }
        if fresh.len() > 1 {
            e.several = true;
        }
        for (k, g) in fresh.iter().enumerate() {
            e.files.insert(*g);
            key.push((i, k));
            self.visit(*g, key, st, e);
            key.pop();
        }
    }

    fn aliases(&self, g: usize) -> Vec<String> {
        let p = &self.w.files[g].path;
        self.w
            .links
            .iter()
            .filter(|(l, _)| self.vfs.canon_str(l).as_deref() == Some(p))
            .map(|(l, _)| l.rsplit('/').next().unwrap().to_string())
            .collect()
    }

    /// directories that may be listed and files that may be opened
    pub fn allowed(&self, e: &Exp) -> (BTreeSet<String>, BTreeSet<String>) {
        let mut dirs = BTreeSet::new();
        let mut files = BTreeSet::new();
        if !self.w.inline {
            files.insert(self.w.files[0].path.clone());
        }
        for f in &e.files {
            // a directory with pattern characters in its name may be found by listing its parent
            let dir = self.dir_of(*f);
            let mut at = String::new();
            for c in dir.split('/').filter(|c| !c.is_empty()) {
                if c.contains(['*', '?', '[', ']']) {
                    dirs.insert(if at.is_empty() { "/".into() } else { at.clone() });
                }
                at = format!("{}/{}", at, c);
            }
            for it in &self.w.files[*f].items {
                if let Item::Include { pat, .. } = it {
                    if pattern_error(pat) {
                        continue;
                    }
                    for m in self.expand(&self.dir_of(*f), pat, &mut dirs) {
                        match m {
                            Match::File(g, _) => {
                                files.insert(self.w.files[g].path.clone());
                            }
                            Match::Odd(c, _, _) => {
                                files.insert(c);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        (dirs, files)
    }
}

struct Walk {
    claimed: BTreeMap<usize, PushCtx>,
    ctx: PushCtx,
    seen1: BTreeMap<String, ()>,
    seenv: BTreeSet<String>,
    repeats: bool,
}
