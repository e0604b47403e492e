//! Comparing what was observed with what the model expects.
use crate::model::*;
use crate::obs::*;
use crate::scen::*;
use crate::vfs::Vfs;
use std::collections::{BTreeMap, BTreeSet};

pub fn short(s: &str) -> String {
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

/// canonical path of a name as reported, relative to the working directory; components which do
/// not exist are kept as they are
pub fn canon_name(vfs: &Vfs, name: &str) -> String {
    let mut cur = name.trim_end_matches('/').to_string();
    let mut rest: Vec<String> = vec![];
    loop {
        let probe = if cur.is_empty() { ".".to_string() } else { cur.clone() };
        if let Some(c) = vfs.canon_str(&probe) {
            let mut out = c;
            for r in rest.iter().rev() {
                if r == "." || r.is_empty() {
                    continue;
                }
                if r == ".." {
                    let k = out.rfind('/').unwrap_or(0);
                    out.truncate(k);
                    continue;
                }
                if !out.ends_with('/') {
                    out.push('/');
                }
                out.push_str(r);
            }
            return out;
        }
        match cur.rfind('/') {
            Some(i) => {
                rest.push(cur[i + 1..].to_string());
                cur.truncate(i);
                if cur.is_empty() {
                    cur = "/".into();
                }
            }
            None => {
                rest.push(cur.clone());
                cur.clear();
            }
        }
        if rest.len() > 4000 {
            return name.to_string();
        }
    }
}

pub fn is_file(m: &Model, s: &OSpan, f: usize) -> bool {
    if f == 0 && m.w.inline {
        return s.file.is_none();
    }
    match &s.file {
        Some(n) => canon_name(&m.vfs, n) == m.w.files[f].path,
        None => false,
    }
}

pub fn file_of(m: &Model, s: &OSpan) -> Option<usize> {
    (0..m.w.files.len()).find(|f| is_file(m, s, *f))
}

/// the span resolves to this piece of this file
pub fn check_span(m: &Model, s: &OSpan, f: usize, start: usize, end: usize, prefix: bool) -> Result<(), String> {
    if !is_file(m, s, f) {
        return Err(format!("resolves to file {:?} instead of {}", s.file, if f == 0 && m.w.inline { "none (inline)" } else { &m.w.files[f].path }));
    }
    let text = &m.texts[f];
    let want = &text[start..end.min(text.len())];
    if s.start != start {
        return Err(format!("begins at byte {} instead of {}", s.start, start));
    }
    let mut end = start + want.trim_end().len();
    let cut = want.trim_end().strip_prefix(s.content.as_str()).map(|r| r.trim_start_matches([' ', '\t']).starts_with(';') && !r.contains('\n')).unwrap_or(false);
    if prefix && cut {
        // without the comment on its last line, which is not part of it
        end = start + s.content.len();
    } else if prefix {
        if !s.content.starts_with(want.trim_end()) {
            return Err(format!("resolves to {:?} instead of {:?}", short(&s.content), short(want)));
        }
        // anything further is comment lines and blank lines only
        let more = &s.content[want.trim_end().len()..];
        for (i, l) in more.split('\n').enumerate() {
            let t = l.trim_start();
            let trivia = t.is_empty() || t.starts_with(';') || (i > 0 && !l.starts_with([' ', '\t']) && l.starts_with(['*', '#', ':', '!', '&', '?', '%']));
            if !trivia {
                return Err(format!("resolves to more than itself: {:?}", short(&s.content)));
            }
        }
        end = start + s.content.len();
        if end > text.len() || text[start..end] != s.content {
            return Err(format!("resolves to {:?}, which is not in the file there", short(&s.content)));
        }
    } else if s.content != want.trim_end() {
        return Err(format!("resolves to {:?} instead of {:?}", short(&s.content), short(want.trim_end())));
    }
    if s.content.trim_end() != s.content {
        return Err(format!("content has trailing whitespace: {:?}", short(&s.content)));
    }
    let (l0, l1) = (m.line_of(f, start), m.line_of(f, end));
    if (s.l0, s.l1) != (l0, l1) {
        return Err(format!("resolves to lines {}-{} instead of {}-{} ({:?})", s.l0, s.l1, l0, l1, short(&s.content)));
    }
    Ok(())
}

/// any span of the observation, as far as can be said without knowing what it is for: it lies in
/// one of the files, the text is what is there, and the lines fit
pub fn check_any_span(m: &Model, s: &OSpan) -> Result<(), String> {
    let Some(f) = file_of(m, s) else {
        return Err(format!("resolves to an unknown file {:?}", s.file));
    };
    let text = &m.texts[f];
    if s.content.is_empty() && s.end <= s.start && s.start <= text.len() && s.l0 <= s.l1 {
        // of something which may be left out and was
        return Ok(());
    }
    if s.end < s.start || s.end > text.len() || !text.is_char_boundary(s.start) || !text.is_char_boundary(s.end) {
        return Err(format!("is {}..{}, outside the file or inside a character", s.start, s.end));
    }
    let t = &text[s.start..s.end];
    let want = if t.trim_end().is_empty() { t } else { t.trim_end() };
    if s.content != want {
        return Err(format!("resolves to {:?} instead of {:?}", short(&s.content), short(want)));
    }
    let (l0, l1) = (m.line_of(f, s.start), m.line_of(f, s.start + want.len()));
    if (s.l0, s.l1) != (l0, l1) {
        return Err(format!("resolves to lines {}-{} instead of {}-{}", s.l0, s.l1, l0, l1));
    }
    Ok(())
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Id {
    pub canon: String,
    pub date: String,
    pub tags: Vec<String>,
    pub links: Vec<String>,
    pub meta: Vec<(String, String)>,
}

pub fn exp_id(m: &Model, d: &ExpDir) -> Id {
    let Item::Dir { canon, date, links, .. } = &m.w.files[d.file].items[d.item] else { unreachable!() };
    Id {
        canon: canon.clone(),
        date: date.clone(),
        tags: d.tags.iter().cloned().collect(),
        links: links.clone(),
        meta: d.meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
    }
}

pub fn obs_id(d: &ODir) -> Id {
    Id { canon: d.canon.clone(), date: d.date.clone(), tags: d.tags.clone(), links: d.links.clone(), meta: d.meta.clone() }
}

/// exactly the expected directives, each once
pub fn check_dirs(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    let mut left: BTreeMap<Id, i64> = BTreeMap::new();
    for d in &e.dirs {
        *left.entry(exp_id(m, d)).or_insert(0) += 1;
    }
    let mut extra = vec![];
    for d in &o.dirs {
        let id = obs_id(d);
        match left.get_mut(&id) {
            Some(n) if *n > 0 => *n -= 1,
            _ => extra.push(id),
        }
    }
    let missing: Vec<&Id> = left.iter().filter(|(_, n)| **n > 0).map(|(i, _)| i).collect();
    if missing.is_empty() && extra.is_empty() {
        return Ok(());
    }
    let s = |i: &Id| short(&format!("{} {} tags {:?} links {:?} meta {:?}", i.date, i.canon, i.tags, i.links, i.meta));
    Err(match (missing.first(), extra.first()) {
        (Some(a), None) => format!("missing: {} of {} directives missing, e.g. {}", missing.len(), e.dirs.len(), s(a)),
        (None, Some(b)) => format!("additional: {} directives too many, e.g. {}", extra.len(), s(b)),
        (Some(a), Some(b)) => format!("different: expected {} but got {}", s(a), s(b)),
        _ => unreachable!(),
    })
}

/// expected errors are there and no others
pub fn check_errors(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    let mut used = vec![false; o.errors.len()];
    // exact ones first
    for pass in [true, false] {
        for x in e.errors.iter().filter(|x| x.exact == pass) {
            let says = |oe: &OErr| {
                let full = oe.full().to_lowercase();
                x.says.iter().all(|s| s.split('\u{0}').any(|alt| full.contains(&alt.to_lowercase())))
            };
            let fits = |oe: &OErr| {
                is_file(m, &oe.span, x.file)
                    && if x.exact {
                        oe.span.start == x.start && check_span(m, &oe.span, x.file, x.start, x.end, false).is_ok()
                    } else {
                        oe.span.start >= x.start && oe.span.start <= x.end
                    }
            };
            let mut found = false;
            for (i, oe) in o.errors.iter().enumerate() {
                if !used[i] && fits(oe) && says(oe) {
                    used[i] = true;
                    found = true;
                    if x.exact {
                        break;
                    }
                }
            }
            if !x.exact && x.what != "leftover-meta" && x.what != "leftover-tag" {
                for (i, oe) in o.errors.iter().enumerate() {
                    if !used[i] && fits(oe) {
                        used[i] = true;
                    }
                }
            }
            if !found && x.what != "maybe" {
                // one shared with another expected at the same place is not enough unless both are soft
                let shared = !x.exact && o.errors.iter().any(|oe| fits(oe) && says(oe));
                if !shared {
                    let there: Vec<String> = o.errors.iter().map(|oe| short(&format!("{} at {:?} line {} {:?}", oe.full(), oe.span.file, oe.span.l0, oe.span.content))).take(4).collect();
                    return Err(format!(
                        "unreported: no error ({}, saying {:?}) at {} line {} {:?}; there are {} errors: {:?}",
                        x.what,
                        x.says,
                        m.w.files[x.file].path,
                        m.line_of(x.file, x.start),
                        short(&m.texts[x.file][x.start..x.end.min(m.texts[x.file].len())]),
                        o.errors.len(),
                        there
                    ));
                }
            }
        }
    }
    if let Some(i) = used.iter().position(|u| !u) {
        let oe = &o.errors[i];
        return Err(format!("unexpected: error {:?} at {:?} line {} {:?}", short(&oe.full()), oe.span.file, oe.span.l0, short(&oe.span.content)));
    }
    Ok(())
}

/// success or failure as expected, and if failed then for the expected reasons
pub fn check_outcome(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    match (&e.load_err, &o.load_err) {
        (Some(f), Some((kind, msg))) => {
            let want = match f {
                Fail::Errno(n) => format!("{:?}", std::io::Error::from_raw_os_error(*n).kind()),
                Fail::Utf8 => "InvalidData".into(),
            };
            if &want != kind {
                return Err(format!("kind: root file failed with {:?} but the io::Error is {} ({})", f, kind, msg));
            }
            return Ok(());
        }
        (Some(f), None) => return Err(format!("accepted: root file fails with {:?} but loading succeeded", f)),
        (None, Some((k, msg))) => return Err(format!("refused: loading failed without reason: {} {}", k, msg)),
        _ => {}
    }
    if e.errors.is_empty() && !o.ok {
        let es: Vec<String> = o.errors.iter().take(3).map(|x| short(&format!("{} at {:?} line {}", x.full(), x.span.file, x.span.l0))).collect();
        return Err(format!("refused: parsing failed without reason: {:?}", es));
    }
    if !e.errors.is_empty() && o.ok {
        return Err(format!("accepted: parsing succeeded in spite of {} at {} line {}", e.errors[0].what, m.w.files[e.errors[0].file].path, m.line_of(e.errors[0].file, e.errors[0].start)));
    }
    if !o.ok && o.errors.is_empty() {
        return Err("refused: parsing failed with no error at all".into());
    }
    if !o.ok {
        check_errors(m, e, o)?;
    }
    Ok(())
}

/// pair observed with expected directives by value, in order of location where several are equal
pub fn pair<'a>(m: &Model, e: &'a Exp, o: &'a Obs) -> Vec<(&'a ODir, &'a ExpDir)> {
    let mut by: BTreeMap<Id, Vec<&ExpDir>> = BTreeMap::new();
    for d in &e.dirs {
        by.entry(exp_id(m, d)).or_default().push(d);
    }
    let mut out = vec![];
    for d in &o.dirs {
        if let Some(v) = by.get_mut(&obs_id(d)) {
            if v.is_empty() {
                continue;
            }
            let k = v
                .iter()
                .position(|x| is_file(m, &d.span, x.file) && m.item_start(x.file, x.item) == d.span.start)
                .unwrap_or(0);
            out.push((d, v.remove(k)));
        }
    }
    out
}

pub fn check_spans(m: &Model, e: &Exp, o: &Obs, checked: &mut u64) -> Result<(), String> {
    for (d, x) in pair(m, e, o) {
        let Item::Dir { end, marks, canon, .. } = &m.w.files[x.file].items[x.item] else { unreachable!() };
        let s = m.item_start(x.file, x.item);
        check_span(m, &d.span, x.file, s, s + end, true).map_err(|err| format!("span: directive {} {}", short(canon), err))?;
        *checked += 1;
        for (label, sp) in &d.spans {
            let p = if let Some((_, pf, a, b)) = x.pushed.iter().find(|p| &p.0 == label) {
                Some((*pf, *a, *b))
            } else {
                marks.iter().find(|k| &k.0 == label).map(|k| (x.file, s + k.1, s + k.2))
            };
            match p {
                Some((f, a, b)) => {
                    // a pushed tag may be located at the tag alone
                    let r = check_span(m, sp, f, a, b, false);
                    let r = match r {
                        Err(e) if label.starts_with("tag:") && x.pushed.iter().any(|p| &p.0 == label) => {
                            let at = m.texts[f][a..b].find('#').map(|i| a + i).unwrap_or(a);
                            check_span(m, sp, f, at, b, false).map_err(|_| e)
                        }
                        r => r,
                    };
                    r.map_err(|err| format!("span: {} of {} {}", label, short(canon), err))?;
                }
                None => check_any_span(m, sp).map_err(|err| format!("span: {} of {} {}", label, short(canon), err))?,
            }
            *checked += 1;
        }
    }
    for er in o.errors.iter().chain(&o.warnings) {
        for sp in std::iter::once(&er.span).chain(er.contexts.iter().map(|c| &c.1)).chain(er.related.iter().map(|c| &c.1)) {
            check_any_span(m, sp).map_err(|err| format!("span: of error {:?} {}", short(&er.full()), err))?;
            *checked += 1;
        }
        if er.text != er.span.content {
            return Err(format!("span: error_source_text is {:?} but the span resolves to {:?}", short(&er.text), short(&er.span.content)));
        }
    }
    for (l, sp) in o.plugin_spans.iter().chain(&o.opt_spans) {
        check_any_span(m, sp).map_err(|err| format!("span: of {} {}", l, err))?;
        *checked += 1;
    }
    for (l, sp) in &o.plugin_spans {
        let (part, name) = l.split_once(':').unwrap();
        let ok = e.files.iter().any(|f| marked(m, *f, sp, |it, k| matches!(it, Item::Plugin { module, .. } if module == name) && k == part));
        if !ok {
            return Err(format!("span: {} of plugin {} is located at {:?} line {} {:?}", part, name, sp.file, sp.l0, sp.content));
        }
    }
    check_option_spans(m, e, o).map_err(|e| format!("span: {}", e))?;
    // what an error relates to is something written, as a whole
    for er in o.errors.iter().chain(&o.warnings) {
        for (l, sp) in &er.related {
            if !e.files.iter().any(|f| marked(m, *f, sp, |_, _| true)) {
                return Err(format!("span: {:?} is related to {} at {:?} line {} {:?}", short(&er.full()), l, sp.file, sp.l0, sp.content));
            }
        }
    }
    Ok(())
}

/// whether this is the span of a part, chosen by the function, of an item in the file
fn marked(m: &Model, f: usize, sp: &OSpan, is: impl Fn(&Item, &str) -> bool) -> bool {
    is_file(m, sp, f)
        && m.w.files[f].items.iter().enumerate().any(|(i, it)| {
            let s = m.item_start(f, i);
            it.marks().iter().any(|k| s + k.1 == sp.start && is(it, &k.0) && check_span(m, sp, f, s + k.1, s + k.2, false).is_ok())
        })
}

/// date, class, and then the order of the traversal
pub fn check_order(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    for w in o.dirs.windows(2) {
        let k = |d: &ODir| (d.date.clone(), d.class);
        if k(&w[0]) > k(&w[1]) {
            return Err(format!("order: {} {} comes before {} {}", w[0].date, short(&w[0].canon), w[1].date, short(&w[1].canon)));
        }
    }
    if e.several && e.repeats {
        // which of several matches goes first decides where the repeated file counts
        return Ok(());
    }
    let ps = pair(m, e, o);
    // which of several matches of one include goes first is not given, but must be consistent
    let mut sib: BTreeMap<(PathKey, usize, usize), bool> = BTreeMap::new();
    let mut groups: BTreeMap<(String, u8), Vec<(&ODir, &ExpDir)>> = BTreeMap::new();
    for (d, x) in ps {
        groups.entry((d.date.clone(), d.class)).or_default().push((d, x));
    }
    for g in groups.values() {
        for i in 0..g.len() {
            // neighbours suffice for the fixed order, all pairs for siblings; keep it bounded
            for j in i + 1..g.len().min(i + 40) {
                let (a, b) = (&g[i].1.key, &g[j].1.key);
                let mut n = 0;
                while n < a.len() && n < b.len() && a[n] == b[n] {
                    n += 1;
                }
                if n >= a.len() || n >= b.len() {
                    continue;
                }
                if a[n].0 != b[n].0 {
                    if a[n].0 > b[n].0 {
                        return Err(format!("order: {} should not come before {} (both {})", short(&g[i].0.canon), short(&g[j].0.canon), g[i].0.date));
                    }
                } else {
                    let at = a[..n].to_vec();
                    let (lo, hi) = (a[n].1.min(b[n].1), a[n].1.max(b[n].1));
                    let first = a[n].1 < b[n].1;
                    let mut key = at;
                    key.push((a[n].0, usize::MAX));
                    if let Some(was) = sib.insert((key, lo, hi), first) {
                        if was != first {
                            return Err(format!("order: directives of two included files are interleaved around {} (both {})", short(&g[i].0.canon), g[i].0.date));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn check_options(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for k in ["documents", "operating_currency", "inferred_tolerance_default"] {
        want.insert(k.into(), vec![]);
    }
    for (i, n) in ["name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses"].iter().enumerate() {
        want.insert(n.to_string(), vec![crate::gen::DEFAULT_NAMES[i].to_string()]);
    }
    for (n, v, f) in &e.opts {
        match n.as_str() {
            "documents" => want.get_mut(n).unwrap().push(format!("{}/{}", m.dir_of(*f), v).replace("//", "/")),
            "operating_currency" | "inferred_tolerance_default" => want.get_mut(n).unwrap().push(v.clone()),
            "render_commas" | "infer_tolerance_from_cost" => {
                let b = v.eq_ignore_ascii_case("true") || v == "1";
                want.insert(n.clone(), vec![b.to_string()]);
            }
            _ => {
                want.insert(n.clone(), vec![v.clone()]);
            }
        }
    }
    let mut got = o.opts.clone();
    if let Some(d) = got.get_mut("documents") {
        for p in d.iter_mut() {
            *p = canon_name(&m.vfs, p);
        }
    }
    for v in want.values_mut().chain(got.values_mut()) {
        v.sort();
    }
    let keys: BTreeSet<&String> = want.keys().chain(got.keys()).collect();
    for k in keys {
        if want.get(k) != got.get(k) {
            return Err(format!("option: {} is {:?} instead of {:?}", k, got.get(k), want.get(k)));
        }
    }
    check_option_spans(m, e, o)
}

/// each value is located at the pragma which gave it
fn check_option_spans(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    for (n, sp) in &o.opt_spans {
        let ok = e.files.iter().any(|f| {
            m.w.files[*f].items.iter().enumerate().any(|(i, it)| match it {
                Item::Opt { name, .. } if name == n => {
                    let k = it.mark("value").unwrap();
                    let s = m.item_start(*f, i);
                    check_span(m, sp, *f, s + k.1, s + k.2, false).is_ok()
                }
                _ => false,
            })
        });
        if !ok {
            return Err(format!("option: {} is located at {:?} line {} {:?}", n, sp.file, sp.l0, sp.content));
        }
    }
    Ok(())
}

/// strings of more lines than long_string_maxlines allows are warned about, and nothing else is
pub fn check_warnings(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    // the limits, as far as it is known where they apply: what the root file says it says to all
    let mut limits: Vec<(usize, usize, usize)> = vec![]; // file, item, lines
    for f in &e.files {
        for (i, it) in m.w.files[*f].items.iter().enumerate() {
            if let Item::Opt { name, value, .. } = it {
                if name == "long_string_maxlines" {
                    limits.push((*f, i, value.parse().map_err(|_| "harness: no number".to_string())?));
                }
            }
        }
    }
    let root_only = limits.iter().all(|l| l.0 == 0);
    let lowest = limits.iter().map(|l| l.2).chain([64]).min().unwrap();
    let highest = limits.iter().map(|l| l.2).chain([64]).max().unwrap();
    let mut seen = vec![false; o.warnings.len()];
    for f in &e.files {
        let file = &m.w.files[*f];
        if file.raw.is_some() || file.items.iter().any(|i| matches!(i, Item::Bad { .. })) {
            // which of its strings are recognised is open
            for (k, w) in o.warnings.iter().enumerate() {
                if is_file(m, &w.span, *f) {
                    seen[k] = true;
                }
            }
            continue;
        }
        for (i, it) in file.items.iter().enumerate() {
            let s = m.item_start(*f, i);
            let (lo, hi) = if root_only {
                let l = limits.iter().filter(|l| *f != 0 || l.1 < i).last().map(|l| l.2).unwrap_or(64);
                (l, l)
            } else {
                (lowest, highest)
            };
            for k in it.marks() {
                let text = &m.texts[*f][s + k.1..s + k.2];
                if !text.starts_with('"') || !text.ends_with('"') || text.len() < 2 {
                    continue;
                }
                let lines = text.matches('\n').count() + 1;
                let most = lines + text.matches("\\n").count();
                let hits: Vec<usize> = (0..o.warnings.len()).filter(|j| check_span(m, &o.warnings[*j].span, *f, s + k.1, s + k.2, false).is_ok()).collect();
                if lines > hi && hits.is_empty() {
                    return Err(format!("warning: no warning of {:?} with {} lines where {} are allowed, in {} line {}", short(text), lines, hi, file.path, m.line_of(*f, s + k.1)));
                }
                if hits.len() > 1 {
                    return Err(format!("warning: {} warnings of {:?} in {} line {}", hits.len(), short(text), file.path, m.line_of(*f, s + k.1)));
                }
                for h in hits {
                    if most > lo {
                        seen[h] = true;
                    }
                }
            }
        }
    }
    for (k, w) in o.warnings.iter().enumerate() {
        // whether an escaped newline makes a line is open
        if !seen[k] && !w.text.contains("\\n") {
            return Err(format!("warning: {:?} of {:?} at {:?} line {} without reason", short(&w.full()), short(&w.text), w.span.file, w.span.l0));
        }
    }
    Ok(())
}

pub fn check_plugins(_m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    let mut a = e.plugins.clone();
    let mut b = o.plugins.clone();
    if e.several {
        a.sort();
        b.sort();
    }
    if a != b {
        return Err(format!("plugin: {:?} instead of {:?}", b, a));
    }
    Ok(())
}

/// everything the model says
pub fn check_all(m: &Model, e: &Exp, o: &Obs) -> Result<(), String> {
    check_outcome(m, e, o)?;
    if o.load_err.is_none() {
        if o.ok {
            check_dirs(m, e, o)?;
            check_order(m, e, o)?;
            check_options(m, e, o)?;
            check_plugins(m, e, o)?;
        }
        check_spans(m, e, o, &mut 0)?;
    }
    Ok(())
}
