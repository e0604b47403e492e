//! What a user can observe of the library: everything is copied out, so that observations of
//! different runs can be compared and outlive the parse.
use crate::gen::canon_meta;
use beancount_parser_lima::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OSpan {
    pub file: Option<String>,
    pub l0: usize,
    pub l1: usize,
    pub content: String,
    pub source: usize,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ODir {
    pub canon: String,
    pub date: String,
    pub class: u8,
    pub tags: Vec<String>,
    pub links: Vec<String>,
    pub meta: Vec<(String, String)>,
    pub span: OSpan,
    pub spans: Vec<(String, OSpan)>,
    /// as printed, which shows the order of tags, links, keys and currencies too
    #[serde(default)]
    pub shown: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OErr {
    pub message: String,
    pub reason: String,
    pub span: OSpan,
    pub contexts: Vec<(String, OSpan)>,
    pub related: Vec<(String, OSpan)>,
    pub text: String,
    /// as printed
    #[serde(default)]
    pub shown: String,
}

impl OErr {
    pub fn full(&self) -> String {
        format!("{} {}", self.message, self.reason)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Obs {
    /// kind, message
    pub load_err: Option<(String, String)>,
    pub ok: bool,
    pub dirs: Vec<ODir>,
    pub errors: Vec<OErr>,
    pub warnings: Vec<OErr>,
    pub plugins: Vec<(String, Option<String>)>,
    pub plugin_spans: Vec<(String, OSpan)>,
    pub opts: BTreeMap<String, Vec<String>>,
    pub opt_spans: Vec<(String, OSpan)>,
    /// values of list-valued options in the order listed
    #[serde(default)]
    pub listed: Vec<String>,
    /// the written reports: errors, then warnings
    pub report: String,
    /// errors made up about elements, each with its report
    #[serde(default)]
    pub made: Vec<(OErr, String)>,
}

/// whether to make up errors about elements
pub static ELEMENTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn make_up(directives: &[Spanned<Directive>], sources: &BeancountSources) -> Vec<(OErr, String)> {
    let n = directives.len();
    let mut out = vec![];
    for k in 0..n.min(7) {
        let d = &directives[(k * 7919 + n / 2) % n];
        let x = &directives[(k * 31 + 1) % n];
        let y = &directives[(k * 13 + n / 3) % n];
        // the error, and the places it must be about
        let (mut e, mut at, mut ctx, mut rel) = (d.error("why"), *d.span(), vec![], vec![]);
        let md = d.metadata();
        if k % 4 == 3 {
            if let Some(t) = md.tags().next() {
                (e, at) = (t.error("why").in_context(d), *t.span());
                ctx.push(*d.span());
            } else if let Some(t) = md.links().next() {
                (e, at) = (t.error("why"), *t.span());
            } else if let Some((t, _)) = md.key_values().last() {
                (e, at) = (t.error("why"), *t.span());
            }
        } else if let DirectiveVariant::Transaction(t) = d.variant() {
            if let Some(p) = t.postings().last() {
                (e, at) = if k % 2 == 0 { (p.account().error("why"), *p.account().span()) } else { (p.error("why"), *p.span()) };
                e = e.in_contexts([d, d]);
                ctx = vec![*d.span(), *d.span()];
                if k % 4 == 2 {
                    e = e.related_to_all(t.postings().map(|p| p.account()));
                    rel.extend(t.postings().map(|p| *p.account().span()));
                }
            }
        } else if let DirectiveVariant::Price(p) = d.variant() {
            (e, at) = (p.currency().error("why"), *p.currency().span());
        }
        if k % 3 != 2 {
            e = e.related_to(x);
            rel.push(*x.span());
        }
        if k % 5 == 4 {
            e = e.related_to_all([y, x]);
            rel.extend([*y.span(), *x.span()]);
        }
        let mut w: Vec<u8> = vec![];
        let r = sources.write_errors_or_warnings(&mut w, vec![e.clone()]);
        let mut text = String::from_utf8_lossy(&w).into_owned();
        if let Err(e) = r {
            text = format!("REPORT FAILED {}", e);
        }
        if e.span() != at || !e.contexts().map(|c| c.1).eq(ctx) || !e.related().map(|c| c.1).eq(rel) {
            text = "ELEMENTS LOST".into();
        }
        out.push((err(&e, sources, sources.error_source_text(&e)), text));
    }
    out
}

pub trait Resolve {
    fn res(&self, s: &Span) -> OSpan;
}

fn ospan(r: SpannedSource, s: &Span) -> OSpan {
    OSpan {
        file: r.file_name.map(|x| x.to_string()),
        l0: r.start_line,
        l1: r.end_line,
        content: r.content.to_string(),
        source: s.source,
        start: s.start,
        end: s.end,
    }
}

impl Resolve for BeancountSources {
    fn res(&self, s: &Span) -> OSpan {
        ospan(self.resolve_span(s), s)
    }
}

impl Resolve for SyntheticSources<'_> {
    fn res(&self, s: &Span) -> OSpan {
        ospan(self.resolve_span(s), s)
    }
}

fn acct(a: &Account) -> String {
    format!("{}<{:?}>", a.as_ref(), a.account_type())
}

fn meta_val(v: &MetaValue) -> String {
    match v {
        MetaValue::Amount(a) => format!("M:{} {}", a.number().item().value(), a.currency().item().as_ref()),
        MetaValue::Simple(s) => match s {
            SimpleValue::String(x) => format!("S:{:?}", x),
            SimpleValue::Currency(c) => format!("C:{}", c.as_ref()),
            SimpleValue::Account(a) => format!("A:{}", acct(a)),
            SimpleValue::Tag(t) => format!("T:{}", t.as_ref()),
            SimpleValue::Link(l) => format!("L:{}", l.as_ref()),
            SimpleValue::Date(d) => format!("D:{}", date(d)),
            SimpleValue::Bool(b) => format!("B:{}", b),
            SimpleValue::Null => "N:".to_string(),
            SimpleValue::Expr(e) => format!("E:{}", e.value()),
        },
    }
}

fn date(d: &time::Date) -> String {
    format!("{:04}-{:02}-{:02}", d.year(), d.month() as u8, d.day())
}

fn flag(f: &Flag) -> String {
    f.to_string()
}

struct Col<'a, R: Resolve> {
    r: &'a R,
    spans: Vec<(String, OSpan)>,
}

impl<R: Resolve> Col<'_, R> {
    fn at(&mut self, label: impl Into<String>, s: &Span) {
        let o = self.r.res(s);
        self.spans.push((label.into(), o));
    }
    #[allow(clippy::type_complexity)]
    fn metadata(&mut self, pre: &str, m: &Metadata) -> (Vec<String>, Vec<String>, Vec<(String, String)>) {
        let mut tags = vec![];
        let mut links = vec![];
        let mut kvs = vec![];
        let mut found = vec![];
        for t in m.tags() {
            tags.push(t.item().as_ref().to_string());
            found.push((format!("{}tag:{}", pre, t.item().as_ref()), *t.span()));
        }
        for t in m.links() {
            links.push(t.item().as_ref().to_string());
            found.push((format!("{}link:{}", pre, t.item().as_ref()), *t.span()));
        }
        for (k, v) in m.key_values() {
            kvs.push((k.item().as_ref().to_string(), meta_val(v.item())));
            found.push((format!("{}key:{}", pre, k.item().as_ref()), *k.span()));
            found.push((format!("{}val:{}", pre, k.item().as_ref()), *v.span()));
            // the same by key
            if m.key_value(*k.item()).map(|x| meta_val(x.item())) != Some(meta_val(v.item())) {
                kvs.push((format!("LOOKUP-DIFFERS-{}", k.item().as_ref()), String::new()));
            }
        }
        found.sort_by(|a, b| a.0.cmp(&b.0));
        for (l, s) in found {
            self.at(l, &s);
        }
        tags.sort();
        links.sort();
        kvs.sort();
        (tags, links, kvs)
    }
}

pub fn directive<R: Resolve>(d: &Spanned<Directive>, r: &R) -> ODir {
    let mut c = Col { r, spans: vec![] };
    c.at("date", d.date().span());
    let mut class = 2;
    let canon = match d.variant() {
        DirectiveVariant::Transaction(t) => {
            c.at("flag", t.flag().span());
            if let Some(p) = t.payee() {
                c.at("payee", p.span());
            }
            if let Some(p) = t.narration() {
                c.at("narration", p.span());
            }
            let q = |x: Option<&Spanned<&str>>| x.map(|x| format!("{:?}", x.item())).unwrap_or("-".into());
            let mut s = format!("txn {} {} {}", flag(t.flag().item()), q(t.payee()), q(t.narration()));
            for (i, p) in t.postings().enumerate() {
                let pre = format!("p{}", i);
                c.at(pre.clone(), p.span());
                c.at(format!("{}.account", pre), p.account().span());
                let _ = write!(s, " | {}", p.flag().map(|f| flag(f.item())).unwrap_or("-".into()));
                if let Some(f) = p.flag() {
                    c.at(format!("{}.flag", pre), f.span());
                }
                let _ = write!(s, " {}", acct(p.account().item()));
                match p.amount() {
                    Some(a) => {
                        c.at(format!("{}.amount", pre), a.span());
                        let _ = write!(s, " {}", a.item().value());
                    }
                    None => s.push_str(" -"),
                }
                match p.currency() {
                    Some(a) => {
                        c.at(format!("{}.currency", pre), a.span());
                        let _ = write!(s, " {}", a.item().as_ref());
                    }
                    None => s.push_str(" -"),
                }
                match p.cost_spec() {
                    Some(a) => {
                        c.at(format!("{}.cost", pre), a.span());
                        let _ = write!(s, " {}", cost(a.item()));
                    }
                    None => s.push_str(" -"),
                }
                match p.price_annotation() {
                    Some(a) => {
                        c.at(format!("{}.price", pre), a.span());
                        let _ = write!(s, " {}", price(a.item()));
                    }
                    None => s.push_str(" -"),
                }
                let (tags, links, kvs) = c.metadata(&format!("{}.", pre), p.metadata());
                let _ = write!(s, " {}", canon_meta(&tags, &links, &kvs));
            }
            s
        }
        DirectiveVariant::Price(p) => {
            c.at("currency", p.currency().span());
            c.at("amount", p.amount().span());
            c.at("amount.number", p.amount().item().number().span());
            c.at("amount.currency", p.amount().item().currency().span());
            format!("price {} {} {}", p.currency().item().as_ref(), p.amount().item().number().item().value(), p.amount().item().currency().item().as_ref())
        }
        DirectiveVariant::Balance(b) => {
            class = 1;
            c.at("account", b.account().span());
            c.at("atol", b.atol().span());
            let am = b.atol().item().amount();
            c.at("amount.number", am.item().number().span());
            c.at("amount.currency", am.item().currency().span());
            let tol = match b.atol().item().tolerance() {
                Some(t) => {
                    c.at("tolerance", t.span());
                    t.item().to_string()
                }
                None => "-".into(),
            };
            format!("balance {} {} {} {}", acct(b.account().item()), am.item().number().item().value(), am.item().currency().item().as_ref(), tol)
        }
        DirectiveVariant::Open(o) => {
            class = 0;
            c.at("account", o.account().span());
            let mut cs: Vec<(String, Span)> = o.currencies().map(|x| (x.item().as_ref().to_string(), *x.span())).collect();
            cs.sort_by(|a, b| a.0.cmp(&b.0));
            for (n, s) in &cs {
                c.at(format!("cur:{}", n), s);
            }
            let bk = match o.booking() {
                Some(b) => {
                    c.at("booking", b.span());
                    b.item().to_string()
                }
                None => "-".into(),
            };
            format!("open {} {} {}", acct(o.account().item()), cs.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","), bk)
        }
        DirectiveVariant::Close(x) => {
            c.at("account", x.account().span());
            format!("close {}", acct(x.account().item()))
        }
        DirectiveVariant::Commodity(x) => {
            c.at("currency", x.currency().span());
            format!("commodity {}", x.currency().item().as_ref())
        }
        DirectiveVariant::Pad(x) => {
            c.at("account", x.account().span());
            c.at("source", x.source().span());
            format!("pad {} {}", acct(x.account().item()), acct(x.source().item()))
        }
        DirectiveVariant::Document(x) => {
            c.at("account", x.account().span());
            c.at("path", x.path().span());
            format!("document {} {:?}", acct(x.account().item()), x.path().item())
        }
        DirectiveVariant::Note(x) => {
            c.at("account", x.account().span());
            c.at("comment", x.comment().span());
            format!("note {} {:?}", acct(x.account().item()), x.comment().item())
        }
        DirectiveVariant::Event(x) => {
            c.at("etype", x.event_type().span());
            c.at("desc", x.description().span());
            format!("event {:?} {:?}", x.event_type().item(), x.description().item())
        }
        DirectiveVariant::Query(x) => {
            c.at("name", x.name().span());
            c.at("content", x.content().span());
            format!("query {:?} {:?}", x.name().item(), x.content().item())
        }
        DirectiveVariant::Custom(x) => {
            c.at("type", x.type_().span());
            let mut s = format!("custom {:?}", x.type_().item());
            for (i, v) in x.values().enumerate() {
                c.at(format!("value:{}", i), v.span());
                let _ = write!(s, " ={}", meta_val(v.item()));
            }
            s
        }
    };
    let (tags, links, meta) = c.metadata("", d.metadata());
    let span = r.res(d.span());
    ODir { canon, date: date(d.date().item()), class, tags, links, meta, span, spans: c.spans, shown: d.to_string() }
}

fn cost(c: &CostSpec) -> String {
    let e = |x: Option<&Spanned<ExprValue>>| x.map(|x| x.item().value().to_string()).unwrap_or("-".into());
    format!(
        "{{{} {} {} {} {} {}}}",
        e(c.per_unit()),
        e(c.total()),
        c.currency().map(|x| x.item().as_ref().to_string()).unwrap_or("-".into()),
        c.date().map(|x| date(x.item())).unwrap_or("-".into()),
        c.label().map(|x| format!("{:?}", x.item())).unwrap_or("-".into()),
        c.merge()
    )
}

fn price(p: &PriceSpec) -> String {
    let sc = |s: &ScopedExprValue| match s {
        ScopedExprValue::PerUnit(v) => format!("@unit {}", v.value()),
        ScopedExprValue::Total(v) => format!("@total {}", v.value()),
    };
    match p {
        PriceSpec::Unspecified => "@?".into(),
        PriceSpec::BareCurrency(c) => format!("@{}", c.as_ref()),
        PriceSpec::BareAmount(s) => sc(s),
        PriceSpec::CurrencyAmount(s, c) => format!("{} {}", sc(s), c.as_ref()),
    }
}

pub fn err<K: ErrorOrWarningKind, R: Resolve>(e: &ErrorOrWarning<K>, r: &R, text: &str) -> OErr
where
    ErrorOrWarning<K>: std::fmt::Display,
{
    OErr {
        message: e.message().to_string(),
        reason: e.reason().to_string(),
        span: r.res(&e.span()),
        contexts: e.contexts().map(|(l, s)| (l.to_string(), r.res(&s))).collect(),
        related: e.related().map(|(l, s)| (l.to_string(), r.res(&s))).collect(),
        text: text.to_string(),
        shown: e.to_string(),
    }
}

pub fn options<R: Resolve>(o: &Options, r: &R) -> (BTreeMap<String, Vec<String>>, Vec<(String, OSpan)>, Vec<String>) {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut spans = vec![];
    macro_rules! one {
        ($name:ident, $f:expr) => {
            if let Some(x) = o.$name() {
                #[allow(clippy::redundant_closure_call)]
                m.insert(stringify!($name).into(), vec![($f)(x.item())]);
                spans.push((stringify!($name).to_string(), r.res(x.span())));
            }
        };
    }
    one!(title, |x: &&str| x.to_string());
    one!(account_previous_balances, |x: &Subaccount| x.to_string());
    one!(account_previous_earnings, |x: &Subaccount| x.to_string());
    one!(account_previous_conversions, |x: &Subaccount| x.to_string());
    one!(account_current_earnings, |x: &Subaccount| x.to_string());
    one!(account_current_conversions, |x: &Subaccount| x.to_string());
    one!(account_unrealized_gains, |x: &Subaccount| x.to_string());
    one!(account_rounding, |x: &Subaccount| x.to_string());
    one!(conversion_currency, |x: &Currency| x.to_string());
    one!(inferred_tolerance_multiplier, |x: &rust_decimal::Decimal| x.to_string());
    one!(infer_tolerance_from_cost, |x: &bool| x.to_string());
    one!(render_commas, |x: &bool| x.to_string());
    one!(booking_method, |x: &Booking| x.to_string());
    one!(plugin_processing_mode, |x: &PluginProcessingMode| x.to_string());
    one!(long_string_maxlines, |x: &usize| x.to_string());
    let mut listed = vec![];
    let mut docs: Vec<String> = o.documents().map(|p| p.to_string_lossy().into_owned()).collect();
    listed.extend(docs.iter().cloned());
    docs.sort();
    m.insert("documents".into(), docs);
    let mut oc: Vec<String> = o.operating_currency().map(|p| p.to_string()).collect();
    listed.extend(oc.iter().cloned());
    oc.sort();
    m.insert("operating_currency".into(), oc);
    let mut tol: Vec<String> = o
        .inferred_tolerance_defaults()
        .map(|(c, d)| format!("{}:{}", c.map(|c| c.to_string()).unwrap_or("*".into()), d))
        .collect();
    listed.extend(tol.iter().cloned());
    // the same by currency
    let any = o.inferred_tolerance_defaults().find(|x| x.0.is_none()).map(|x| x.1);
    if o.inferred_tolerance_default_fallback() != any {
        tol.push("FALLBACK-DIFFERS".into());
    }
    for (c, d) in o.inferred_tolerance_defaults() {
        if c.is_some_and(|c| o.inferred_tolerance_default(&c) != Some(d)) {
            tol.push(format!("LOOKUP-DIFFERS-{}", d));
        }
    }
    if Currency::try_from("QQQQQQ").is_ok_and(|c| o.inferred_tolerance_default(&c) != any) {
        tol.push("LOOKUP-DIFFERS".into());
    }
    tol.sort();
    m.insert("inferred_tolerance_default".into(), tol);
    for (n, t) in [
        ("name_assets", AccountType::Assets),
        ("name_liabilities", AccountType::Liabilities),
        ("name_equity", AccountType::Equity),
        ("name_income", AccountType::Income),
        ("name_expenses", AccountType::Expenses),
    ] {
        m.insert(n.into(), vec![o.account_type_name(t).to_string()]);
    }
    (m, spans, listed)
}

/// the outcome of one parse, with everything resolved and all reports written
pub fn parse(sources: &BeancountSources, parser: &BeancountParser) -> Obs {
    result(sources, &parser.parse())
}

pub fn result(sources: &BeancountSources, r: &Result<ParseSuccess, ParseError>) -> Obs {
    let mut o = Obs::default();
    let mut w: Vec<u8> = vec![];
    match r {
        Ok(ParseSuccess { directives, options: opts, plugins, warnings }) => {
            o.ok = true;
            o.dirs = directives.iter().map(|d| directive(d, sources)).collect();
            if ELEMENTS.load(std::sync::atomic::Ordering::Relaxed) {
                o.made = make_up(directives, sources);
            }
            let (m, s, l) = options(opts, sources);
            o.listed = l;
            o.opts = m;
            o.opt_spans = s;
            for p in plugins {
                o.listed.push(p.to_string());
                o.plugins.push((p.module_name().item().to_string(), p.config().map(|c| c.item().to_string())));
                o.plugin_spans.push((format!("module:{}", p.module_name().item()), sources.res(p.module_name().span())));
                if let Some(c) = p.config() {
                    o.plugin_spans.push((format!("config:{}", p.module_name().item()), sources.res(c.span())));
                }
            }
            o.warnings = warnings.iter().map(|e| err(e, sources, sources.error_source_text(e))).collect();
            if let Err(e) = sources.write_errors_or_warnings(&mut w, warnings.clone()) {
                let _ = write!(o.report, "REPORT FAILED {}", e);
            }
        }
        Err(ParseError { errors, warnings }) => {
            o.errors = errors.iter().map(|e| err(e, sources, sources.error_source_text(e))).collect();
            o.warnings = warnings.iter().map(|e| err(e, sources, sources.error_source_text(e))).collect();
            if let Err(e) = sources.write_errors_or_warnings(&mut w, errors.clone()) {
                let _ = write!(o.report, "REPORT FAILED {}", e);
            }
            if let Err(e) = sources.write_errors_or_warnings(&mut w, warnings.clone()) {
                let _ = write!(o.report, "REPORT FAILED {}", e);
            }
        }
    }
    o.report.push_str(&String::from_utf8_lossy(&w));
    o
}

pub fn load_error(e: &std::io::Error) -> Obs {
    Obs { load_err: Some((format!("{:?}", e.kind()), e.to_string())), ..Default::default() }
}

impl Obs {
    /// the same without what depends on being the very same load (nothing at present)
    pub fn digest(&self) -> u64 {
        crate::rng::fnv(format!("{:?}", self).as_bytes())
    }
}

/// first difference, for the message
pub fn diff(a: &Obs, b: &Obs) -> String {
    let cut = |s: String| {
        if s.chars().count() > 600 {
            s.chars().take(600).collect::<String>() + "..."
        } else {
            s
        }
    };
    if a.load_err != b.load_err {
        return cut(format!("load error {:?} versus {:?}", a.load_err, b.load_err));
    }
    if a.ok != b.ok {
        return cut(format!("success {} versus {} (errors {:?} versus {:?})", a.ok, b.ok, a.errors.iter().map(|e| e.full()).collect::<Vec<_>>(), b.errors.iter().map(|e| e.full()).collect::<Vec<_>>()));
    }
    if a.dirs.len() != b.dirs.len() {
        return format!("{} directives versus {}", a.dirs.len(), b.dirs.len());
    }
    for (x, y) in a.dirs.iter().zip(&b.dirs) {
        if x != y {
            return cut(format!("directive {:?} versus {:?}", x, y));
        }
    }
    if a.errors.len() != b.errors.len() {
        return cut(format!("{} errors versus {}: {:?} versus {:?}", a.errors.len(), b.errors.len(), a.errors, b.errors));
    }
    for (x, y) in a.errors.iter().zip(&b.errors) {
        if x != y {
            return cut(format!("error {:?} versus {:?}", x, y));
        }
    }
    if a.warnings != b.warnings {
        return cut(format!("warnings {:?} versus {:?}", a.warnings, b.warnings));
    }
    if a.plugins != b.plugins || a.plugin_spans != b.plugin_spans {
        return cut(format!("plugins {:?} versus {:?}", a.plugins, b.plugins));
    }
    if a.opts != b.opts || a.opt_spans != b.opt_spans {
        return cut(format!("options {:?} versus {:?}", a.opts, b.opts));
    }
    if a.listed != b.listed {
        return cut(format!("lists in order {:?} versus {:?}", a.listed, b.listed));
    }
    if a.report != b.report {
        let k = a.report.bytes().zip(b.report.bytes()).take_while(|(x, y)| x == y).count();
        let near = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(60).min(s.len())..(k + 60).min(s.len())]).into_owned();
        return cut(format!("reports differ at byte {}: {:?} versus {:?}", k, near(&a.report), near(&b.report)));
    }
    "another observation".into()
}
