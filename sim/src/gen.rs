//! Ledger generator: well-formed Beancount text together with what it means, and include trees.
use crate::rng::Rng;
use crate::scen::*;
use rust_decimal::Decimal;
use std::str::FromStr;

/// what a run draws from; varied per run (swarm)
#[derive(Clone, Debug)]
pub struct Prof {
    pub files: (usize, usize),
    pub items: (usize, usize),
    pub unicode: usize,
    pub crlf: usize,
    pub chop: usize,
    pub wild: usize,
    pub push: usize,
    pub opts: usize,
    pub plugins: usize,
    pub links: usize,
    pub dups: usize,
    pub bad: usize,
    pub odd_base: usize,
    pub inline: usize,
    pub chain: usize,
    pub rich: usize,
    pub names: usize,
    pub big: usize,
    pub few_dates: usize,
    pub trivia: usize,
    /// all wildcard expansions have at most one match
    pub single_wild: bool,
    /// leave pushes open and pop what is not pushed
    pub unbalanced: usize,
    pub absolute: usize,
    /// the first of the years most dates are in
    pub era: usize,
    /// long strings, and a limit on their number of lines
    pub long: usize,
}

impl Prof {
    pub fn random(r: &mut Rng) -> Prof {
        let f = *r.pick(&[(1, 1), (1, 3), (2, 4), (3, 7), (5, 12)]);
        let i = *r.pick(&[(0, 2), (1, 4), (2, 6), (4, 9)]);
        let mut z = |xs: &[usize]| *r.pick(xs);
        Prof {
            files: f,
            items: i,
            unicode: z(&[0, 10, 40, 90]),
            crlf: z(&[0, 0, 20, 100]),
            chop: z(&[0, 30, 100]),
            wild: z(&[0, 15, 40]),
            push: z(&[0, 0, 15, 40]),
            opts: z(&[0, 10, 30]),
            plugins: z(&[0, 10]),
            links: z(&[0, 0, 20]),
            dups: 0,
            bad: 0,
            odd_base: z(&[0, 20, 60]),
            inline: z(&[0, 0, 10]),
            chain: z(&[0, 20, 90]),
            rich: z(&[20, 60, 95]),
            names: z(&[0, 0, 20]),
            big: z(&[0, 0, 10]),
            few_dates: z(&[0, 50, 100]),
            trivia: z(&[0, 20, 50]),
            single_wild: false,
            unbalanced: 0,
            absolute: z(&[0, 20]),
            era: z(&[2018, 2018, 2018, 2018, 1995, 1966, 1896, 1850, 1, 2095, 9990]),
            long: z(&[0, 0, 0, 25]),
        }
    }
}

pub struct B {
    pub s: String,
    pub marks: Vec<Mark>,
}

impl B {
    pub fn new() -> B {
        B { s: String::new(), marks: Vec::new() }
    }
    pub fn lit(&mut self, t: &str) -> &mut Self {
        self.s.push_str(t);
        self
    }
    pub fn mark(&mut self, label: &str, t: &str) -> &mut Self {
        let a = self.s.len();
        self.s.push_str(t);
        self.marks.push(Mark(label.to_string(), a, self.s.len()));
        self
    }
    pub fn end(&mut self, label: &str, start: usize) {
        self.marks.push(Mark(label.to_string(), start, self.s.len()));
    }
}

pub const DEFAULT_NAMES: [&str; 5] = ["Assets", "Liabilities", "Equity", "Income", "Expenses"];

pub struct Ctx<'a> {
    pub r: &'a mut Rng,
    pub p: Prof,
    pub names: Vec<String>,
    pub nl: &'static str,
    pub id: &'a mut usize,
}

const WORDS: &[&str] = &["coffee", "Rent", "a", "The quick brown fox", "x; not a comment", "semi;colon", "hash #tag ^link", "100.00 USD", "2020-01-01 open", "include", "pipe | at @", "{braces}", "*", "tab\tin", "back", ""];
const UNIWORDS: &[&str] = &["café", "Zürich", "日本語", "😱 scream", "naïve — dash", "Ω≈ç√", "e\u{301}combining", "שלום", "\u{a0}nbsp\u{a0}", "👩‍👩‍👧", "ﬀ", "İstanbul", "\u{2003}em\u{2003}", "𝔘nicode", "ß", "\u{feff}bom"];
const SUB: &[&str] = &["Bank", "Cash", "A", "Checking-1", "Foo", "X9", "2024", "Long-Sub-Account-Name", "Savings"];
const UNISUB: &[&str] = &["Ägypten", "日本", "Éclair", "Банк", "Ωmega", "Zürich-8"];
const CURS: &[&str] = &["USD", "EUR", "GBP", "X", "V", "NZD", "VHT.L", "A1-B", "F'OO", "GOOG_X", "ABCDEFGHIJKLMNOPQRSTUVWX"];
const TAGS: &[&str] = &["trip", "a", "2024-holiday", "A.b", "x/y", "berlin_2023", "T-1", "0"];
const LINKS: &[&str] = &["inv-1", "x", "doc/12.3", "L_9", "2020"];
const KEYS: &[&str] = &["aa", "note", "ref-no", "lineno", "when", "camelCase", "price", "include", "option", "k_9", "amount"];

impl<'a> Ctx<'a> {
    fn uni(&mut self) -> bool {
        let p = self.p.unicode;
        self.r.chance(p)
    }
    fn rich(&mut self) -> bool {
        let p = self.p.rich;
        self.r.chance(p)
    }

    /// content and its literal with quotes
    pub fn string(&mut self, multi: bool) -> (String, String) {
        let mut v = String::new();
        let n = self.r.range(1, 3);
        for k in 0..n {
            if k > 0 {
                v.push(' ');
            }
            let w = if self.uni() { *self.r.pick(UNIWORDS) } else { *self.r.pick(WORDS) };
            v.push_str(w);
        }
        let mut lit = v.clone();
        if self.r.chance(8) {
            v.push_str("q\"q");
            lit.push_str("q\\\"q");
        }
        if self.r.chance(8) {
            v.push_str("b\\b");
            lit.push_str("b\\\\b");
        }
        if self.r.chance(3) {
            v.push_str("r\r'x~");
            lit.push_str("r\\r\\'x\\x7e");
        }
        if self.r.chance(8) {
            v.push_str("n\nn\tt");
            lit.push_str("n\\nn\\tt");
        }
        if multi && self.r.chance(15 + self.p.long) {
            let k = if self.r.chance(self.p.long / 4) { self.r.range(60, 70) } else { self.r.range(1, 4) };
            for j in 0..k {
                let w = if self.uni() { *self.r.pick(UNIWORDS) } else { *self.r.pick(WORDS) };
                let l = format!("{}line{} {}", self.nl, j, w);
                v.push_str(&l);
                lit.push_str(&l);
            }
        }
        (v, format!("\"{}\"", lit))
    }

    pub fn account(&mut self) -> (String, String) {
        let t = self.r.below(5);
        self.account_of(t)
    }

    pub fn account_of(&mut self, t: usize) -> (String, String) {
        let mut s = self.names[t].clone();
        let n = self.r.range(1, 3);
        for _ in 0..n {
            s.push(':');
            let w = if self.uni() { *self.r.pick(UNISUB) } else { *self.r.pick(SUB) };
            s.push_str(w);
        }
        let canon = format!("{}<{}>", s, DEFAULT_NAMES[t]);
        (s, canon)
    }

    pub fn currency(&mut self) -> String {
        self.r.pick(CURS).to_string()
    }

    fn plain_number(&mut self) -> (String, Decimal) {
        let s = match self.r.below(8) {
            0 => format!("{}", self.r.below(10)),
            1 => format!("{}.{:02}", self.r.below(1000), self.r.below(100)),
            2 => format!("{},{:03}.{:02}", self.r.range(1, 999), self.r.below(1000), self.r.below(100)),
            3 => format!("{}.{}", self.r.below(100), "0".repeat(self.r.range(1, 6))),
            4 => format!("{},{:03},{:03}", self.r.range(1, 99), self.r.below(1000), self.r.below(1000)),
            5 => format!("0.{:08}", self.r.below(100_000_000)),
            6 => format!("{}", self.r.below(1_000_000_000)),
            _ => format!("00{}.5", self.r.below(100)),
        };
        let d = Decimal::from_str(&s.replace(',', "")).unwrap();
        (s, d)
    }

    /// literal and canonical value
    fn nonzero_number(&mut self) -> (String, Decimal) {
        let (s, d) = self.plain_number();
        if d.is_zero() {
            ("1.5".into(), Decimal::new(15, 1))
        } else {
            (s, d)
        }
    }

    /// an expression of the given depth: text, precedence (0 sum, 1 product, 2 factor), value, scale
    fn expr(&mut self, depth: usize) -> (String, usize, Decimal, u32) {
        if depth == 0 {
            let (s, d) = if self.r.chance(50) { self.nonzero_number() } else {
                let k = self.r.range(1, 40);
                (k.to_string(), Decimal::from(k))
            };
            let sc = d.scale();
            return match self.r.below(8) {
                0 => (format!("-{}", s), 2, -d, sc),
                1 => (format!("+{}", s), 2, d, sc),
                2 => (format!("({})", s), 2, d, sc),
                _ => (s, 2, d, sc),
            };
        }
        let (d1, d2) = (self.r.below(depth), depth - 1);
        let l = self.expr(d1);
        let rr = self.expr(d2);
        let op = self.r.below(4);
        let prec = op / 2;
        let paren = |e: &(String, usize, Decimal, u32), min: usize| if e.1 < min { format!("({})", e.0) } else { e.0.clone() };
        let (lt, rt) = (paren(&l, prec), paren(&rr, prec + 1));
        let v = match op {
            0 => l.2.checked_add(rr.2),
            1 => l.2.checked_sub(rr.2),
            2 => l.2.checked_mul(rr.2),
            _ => l.2.checked_div(rr.2),
        };
        let Some(v) = v else { return l };
        // without spaces, numbers could look like a date, and a quotient like a currency
        let sp = if op != 3 && self.r.chance(20) && lt.len() < 4 { "" } else { " " };
        let neg = self.r.chance(8);
        let t = format!("{}{}{}{}{}", lt, sp, ["+", "-", "*", "/"][op], sp, rt);
        let sc = l.3.max(rr.3);
        if neg {
            (format!("-({})", t), 2, -v, sc)
        } else {
            (t, prec, v, sc)
        }
    }

    pub fn number(&mut self) -> (String, String) {
        if self.r.chance(10) {
            let depth = self.r.range(1, 4);
            let (s, _, mut v, sc) = self.expr(depth);
            v.rescale(sc);
            return (s, v.to_string());
        }
        let (s, d) = self.plain_number();
        match if d.is_zero() { 11 } else { self.r.below(12) } {
            0 => (format!("-{}", s), (-d).to_string()),
            1 => (format!("-({})", s), (-d).to_string()),
            2 => {
                let (s2, d2) = self.nonzero_number();
                (format!("({} + {})", s, s2), (d + d2).to_string())
            }
            3 => {
                let (s2, d2) = self.nonzero_number();
                (format!("{} - {}", s, s2), (d - d2).to_string())
            }
            4 => (format!("{} * 2", s), (d * Decimal::from(2)).to_string()),
            _ => (s, d.to_string()),
        }
    }

    pub fn date(&mut self) -> (String, String) {
        let (y, m, d) = if self.r.chance(self.p.few_dates) {
            (self.p.era + 6, 1 + self.r.below(2), 1 + self.r.below(2))
        } else {
            match self.r.below(12) {
                0 => (1, 1, 1),
                1 => (9999, 12, 31),
                2 => (2024, 2, 29),
                3 => (1900 + self.r.below(200), 12, 31),
                4 => (self.r.range(1, 9999), self.r.range(1, 12), self.r.range(1, 28)),
                5 => {
                    let m = self.r.range(1, 12);
                    (self.r.range(self.p.era, self.p.era + 8), m, if m == 2 { 28 } else { 30 + (m + m / 8) % 2 })
                }
                _ => (self.r.range(self.p.era, self.p.era + 8), self.r.range(1, 12), self.r.range(1, 28)),
            }
        };
        let sep = if self.r.chance(15) { '/' } else { '-' };
        (format!("{:04}{}{:02}{}{:02}", y, sep, m, sep, d), format!("{:04}-{:02}-{:02}", y, m, d))
    }

    pub fn tag(&mut self) -> String {
        self.r.pick(TAGS).to_string()
    }

    fn comment(&mut self) -> String {
        if self.r.chance(25) {
            let w = if self.uni() { *self.r.pick(UNIWORDS) } else { *self.r.pick(WORDS) };
            format!(" ; {}", w.replace('\n', " "))
        } else if self.r.chance(10) {
            "  ".into()
        } else {
            String::new()
        }
    }

    fn indent(&mut self) -> &'static str {
        *self.r.pick(&["  ", "    ", "\t", " ", "  "])
    }

    /// a metadata value: literal and canonical
    pub fn meta_value(&mut self) -> (String, String) {
        match self.r.below(11) {
            0 => {
                let c = self.currency();
                (c.clone(), format!("C:{}", c))
            }
            1 => {
                let (a, c) = self.account();
                (a, format!("A:{}", c))
            }
            2 => {
                let t = self.tag();
                (format!("#{}", t), format!("T:{}", t))
            }
            3 => {
                let l = self.r.pick(LINKS).to_string();
                (format!("^{}", l), format!("L:{}", l))
            }
            4 => {
                let (l, d) = self.date();
                (l, format!("D:{}", d))
            }
            5 => {
                let b = self.r.chance(50);
                (if b { "TRUE".into() } else { "FALSE".into() }, format!("B:{}", b))
            }
            6 => {
                let (n, c) = self.number();
                (n, format!("E:{}", c))
            }
            7 => {
                let (n, c) = self.number();
                let cur = self.currency();
                (format!("{} {}", n, cur), format!("M:{} {}", c, cur))
            }
            8 => ("NULL".into(), "N:".into()),
            _ => {
                let (v, l) = self.string(false);
                (l, format!("S:{:?}", v))
            }
        }
    }

    /// metadata lines; returns tags, links, key/values added. `have` are tags and links already on
    fn metadata(&mut self, b: &mut B, pre: &str, tags: &mut Vec<String>, links: &mut Vec<String>, kvs: &mut Vec<(String, String)>, max: usize) {
        let n = if self.r.chance(2) {
            self.r.range(5, 40)
        } else if self.rich() {
            self.r.below(max + 1)
        } else {
            0
        };
        for _ in 0..n {
            let ind = self.indent();
            b.lit(ind);
            match self.r.below(10) {
                0 => {
                    let t = self.tag();
                    if tags.contains(&t) {
                        b.s.truncate(b.s.len() - ind.len());
                        continue;
                    }
                    b.mark(&format!("{}tag:{}", pre, t), &format!("#{}", t));
                    tags.push(t);
                }
                1 => {
                    let t = self.r.pick(LINKS).to_string();
                    if links.contains(&t) {
                        b.s.truncate(b.s.len() - ind.len());
                        continue;
                    }
                    b.mark(&format!("{}link:{}", pre, t), &format!("^{}", t));
                    links.push(t);
                }
                _ => {
                    let k = if self.r.chance(70) {
                        self.r.pick(KEYS).to_string()
                    } else {
                        format!("key{}", self.r.below(50))
                    };
                    if kvs.iter().any(|(x, _)| *x == k) {
                        b.s.truncate(b.s.len() - ind.len());
                        continue;
                    }
                    b.mark(&format!("{}key:{}", pre, k), &k);
                    b.lit(":");
                    if self.r.chance(5) {
                        kvs.push((k, "N:".into()));
                    } else {
                        b.lit(if self.r.chance(90) { " " } else { "   " });
                        let (l, c) = self.meta_value();
                        b.mark(&format!("{}val:{}", pre, k), &l);
                        kvs.push((k, c));
                    }
                }
            }
            let c = self.comment();
            let nl = self.nl;
            b.lit(&c).lit(nl);
        }
    }

    fn tags_links(&mut self, b: &mut B, tags: &mut Vec<String>, links: &mut Vec<String>) {
        let many = self.r.chance(3);
        let n = if many {
            self.r.range(6, 40)
        } else if self.rich() {
            self.r.below(4)
        } else {
            0
        };
        for _ in 0..n {
            if self.r.chance(60) {
                let t = if many && self.r.chance(80) { format!("many-{}", self.r.below(60)) } else { self.tag() };
                if tags.contains(&t) {
                    continue;
                }
                b.lit(" ").mark(&format!("tag:{}", t), &format!("#{}", t));
                tags.push(t);
            } else {
                let t = if many { format!("many-{}", self.r.below(60)) } else { self.r.pick(LINKS).to_string() };
                if links.contains(&t) {
                    continue;
                }
                b.lit(" ").mark(&format!("link:{}", t), &format!("^{}", t));
                links.push(t);
            }
        }
    }

    /// a directive; `kind` 12 or more for any
    pub fn directive(&mut self, kind: usize) -> Item {
        let kind = if kind >= 12 { self.r.below(12) } else { kind };
        *self.id += 1;
        let uniq = *self.id;
        let mut b = B::new();
        let (mut tags, mut links, mut kvs) = (vec![], vec![], vec![]);
        let (dl, date) = self.date();
        b.mark("date", &dl);
        b.lit(if self.r.chance(95) { " " } else { "   " });
        let canon;
        let mut class = 2;
        let nl = self.nl;
        match kind {
            0 => {
                let fl = *self.r.pick(&["*", "!", "txn", "*", "!", "#", "'P", "'A", "'Z", "&", "?", "%"]);
                // `#` followed by a tag-like character would be a tag, so keep it apart
                b.mark("flag", fl);
                let fc = match fl {
                    "txn" => "*",
                    x => x,
                };
                let mut c = format!("txn {}", fc);
                let mode = self.r.below(4);
                if mode == 0 && self.r.chance(30) {
                    c += " - -";
                } else if mode <= 1 {
                    let (v, l) = self.string(true);
                    let (v, l) = (format!("{} n{}", v, uniq), format!("{} n{}\"", &l[..l.len() - 1], uniq));
                    b.lit(" ").mark("narration", &l);
                    c += &format!(" - {:?}", v);
                } else {
                    let (pv, pl) = self.string(false);
                    let (v, l) = self.string(true);
                    let (v, l) = (format!("{} n{}", v, uniq), format!("{} n{}\"", &l[..l.len() - 1], uniq));
                    b.lit(" ");
                    if pv.is_empty() {
                        b.lit(&pl);
                        c += " -";
                    } else {
                        b.mark("payee", &pl);
                        c += &format!(" {:?}", pv);
                    }
                    if self.r.chance(8) {
                        b.lit(" \"\"");
                        c += " -";
                    } else {
                        b.lit(" ").mark("narration", &l);
                        c += &format!(" {:?}", v);
                    }
                }
                self.tags_links(&mut b, &mut tags, &mut links);
                let cm = self.comment();
                b.lit(&cm).lit(nl);
                self.metadata(&mut b, "", &mut tags, &mut links, &mut kvs, 3);
                let np = if self.r.chance(2) { self.r.range(5, 40) } else if self.rich() { self.r.range(0, 4) } else { self.r.range(1, 2) };
                for i in 0..np {
                    let pre = format!("p{}", i);
                    let ind = self.indent();
                    b.lit(ind);
                    let ps = b.s.len();
                    let mut pc = String::new();
                    if self.r.chance(10) {
                        let f = *self.r.pick(&["!", "*", "'R", "&", "#", "%", "?", "'A"]);
                        b.mark(&format!("{}.flag", pre), f).lit(" ");
                        pc += f;
                    } else {
                        pc += "-";
                    }
                    let (a, ac) = self.account();
                    b.mark(&format!("{}.account", pre), &a);
                    pc += &format!(" {}", ac);
                    let m = self.r.below(6);
                    if m > 0 {
                        if m != 1 {
                            let (n, nc) = self.number();
                            b.lit(if self.r.chance(80) { "  " } else { "\t" }).mark(&format!("{}.amount", pre), &n);
                            pc += &format!(" {}", nc);
                        } else {
                            pc += " -";
                        }
                        if m != 2 {
                            let cur = self.currency();
                            b.lit(" ").mark(&format!("{}.currency", pre), &cur);
                            pc += &format!(" {}", cur);
                        } else {
                            pc += " -";
                        }
                        if m >= 3 && self.r.chance(25) {
                            let cs = {
                                b.lit(" ");
                                b.s.len()
                            };
                            let cc = self.cost(&mut b);
                            b.end(&format!("{}.cost", pre), cs);
                            pc += &format!(" {}", cc);
                        } else {
                            pc += " -";
                        }
                        if m >= 3 && self.r.chance(25) {
                            b.lit(" ");
                            let s = b.s.len();
                            let tot = self.r.chance(50);
                            b.lit(if tot { "@@" } else { "@" });
                            let k = self.r.below(4);
                            let (n, nc) = self.number();
                            let cur = self.currency();
                            if k == 0 || k == 1 {
                                b.lit(" ").lit(&n);
                            }
                            if k == 0 || k == 2 {
                                b.lit(" ").lit(&cur);
                            }
                            b.end(&format!("{}.price", pre), s);
                            let t = if tot { "total" } else { "unit" };
                            pc += &match k {
                                0 => format!(" @{} {} {}", t, nc, cur),
                                1 => format!(" @{} {}", t, nc),
                                2 => format!(" @{}", cur),
                                _ => " @?".to_string(),
                            };
                        } else {
                            pc += " -";
                        }
                    } else {
                        pc += " - - - -";
                    }
                    b.end(&pre, ps);
                    let cm = self.comment();
                    b.lit(&cm).lit(nl);
                    let (mut pt, mut pl, mut pk) = (vec![], vec![], vec![]);
                    if self.r.chance(25) {
                        self.metadata(&mut b, &format!("{}.", pre), &mut pt, &mut pl, &mut pk, 2);
                    }
                    pt.sort();
                    pl.sort();
                    pk.sort();
                    c += &format!(" | {} {}", pc, canon_meta(&pt, &pl, &pk));
                }
                canon = c;
            }
            1 => {
                let cur = self.currency();
                let (n, nc) = self.number();
                let c2 = self.currency();
                b.lit("price ").mark("currency", &cur).lit(" ");
                let s = b.s.len();
                b.mark("amount.number", &n).lit(" ").mark("amount.currency", &c2);
                b.end("amount", s);
                canon = format!("price {} {} {}", cur, nc, c2);
            }
            2 => {
                class = 1;
                let (a, ac) = self.account();
                let (n, nc) = self.number();
                let cur = self.currency();
                b.lit("balance ").mark("account", &a).lit("  ");
                let s = b.s.len();
                b.mark("amount.number", &n);
                let mut tol = "-".to_string();
                if self.r.chance(30) {
                    let (t, td) = self.plain_number();
                    b.lit(" ~ ").mark("tolerance", &t);
                    tol = td.to_string();
                }
                b.lit(" ").mark("amount.currency", &cur);
                b.end("atol", s);
                canon = format!("balance {} {} {} {}", ac, nc, cur, tol);
            }
            3 => {
                class = 0;
                let (a, ac) = self.account();
                b.lit("open ").mark("account", &a);
                let mut cs: Vec<String> = vec![];
                let n = self.r.below(4);
                for _ in 0..n {
                    let c = self.currency();
                    if !cs.contains(&c) {
                        b.lit(if cs.is_empty() { " " } else { "," }).mark(&format!("cur:{}", c), &c);
                        cs.push(c);
                    }
                }
                let mut bk = "-".to_string();
                if self.r.chance(25) {
                    let k = *self.r.pick(&["STRICT", "FIFO", "LIFO", "HIFO", "NONE", "AVERAGE", "STRICT_WITH_SIZE"]);
                    b.lit(" ").mark("booking", &format!("\"{}\"", k));
                    bk = k.to_string();
                }
                cs.sort();
                canon = format!("open {} {} {}", ac, cs.join(","), bk);
            }
            4 => {
                let (a, ac) = self.account();
                b.lit("close ").mark("account", &a);
                canon = format!("close {}", ac);
            }
            5 => {
                let c = self.currency();
                b.lit("commodity ").mark("currency", &c);
                canon = format!("commodity {}", c);
            }
            6 => {
                let (a, ac) = self.account();
                let (s, sc) = self.account();
                b.lit("pad ").mark("account", &a).lit(" ").mark("source", &s);
                canon = format!("pad {} {}", ac, sc);
            }
            7 => {
                let (a, ac) = self.account();
                let (v, l) = self.string(false);
                b.lit("document ").mark("account", &a).lit(" ").mark("path", &l);
                canon = format!("document {} {:?}", ac, v);
            }
            8 => {
                let (a, ac) = self.account();
                let (v, l) = self.string(true);
                b.lit("note ").mark("account", &a).lit(" ").mark("comment", &l);
                canon = format!("note {} {:?}", ac, v);
            }
            9 => {
                let (v, l) = self.string(false);
                let (v2, l2) = self.string(true);
                b.lit("event ").mark("etype", &l).lit(" ").mark("desc", &l2);
                canon = format!("event {:?} {:?}", v, v2);
            }
            10 => {
                let (v, l) = self.string(false);
                let (v2, l2) = self.string(true);
                b.lit("query ").mark("name", &l).lit(" ").mark("content", &l2);
                canon = format!("query {:?} {:?}", v, v2);
            }
            _ => {
                let (v, l) = self.string(false);
                b.lit("custom ").mark("type", &l);
                let n = if self.r.chance(4) { self.r.range(5, 30) } else { self.r.below(4) };
                let mut c = format!("custom {:?}", v);
                for i in 0..n {
                    let (l, vc) = self.meta_value();
                    // adjacent values could run together as one expression or amount
                    if (vc.starts_with("E:") || vc.starts_with("M:")) && i > 0 {
                        continue;
                    }
                    if vc.starts_with("C:") && (c.contains("E:") || c.contains("M:")) {
                        continue;
                    }
                    b.lit(" ").mark(&format!("value:{}", c.matches(" =").count()), &l);
                    c += &format!(" ={}", vc);
                }
                canon = c;
            }
        }
        if kind != 0 {
            if kind != 11 {
                self.tags_links(&mut b, &mut tags, &mut links);
            }
            let cm = self.comment();
            b.lit(&cm).lit(nl);
            if self.r.chance(4) {
                b.lit(&format!("  :ignored word{}", nl));
            }
            // a serial number, so that every directive can be told apart
            b.lit("  ").mark("key:serial", "serial").lit(": ").mark("val:serial", &format!("\"{}\"", uniq)).lit(nl);
            kvs.push(("serial".into(), format!("S:{:?}", uniq.to_string())));
            self.metadata(&mut b, "", &mut tags, &mut links, &mut kvs, 3);
        }
        tags.sort();
        links.sort();
        kvs.sort();
        let end = b.s.trim_end().len();
        Item::Dir { text: b.s, end, date, class, canon, tags, links, meta: kvs, marks: b.marks }
    }

    fn cost(&mut self, b: &mut B) -> String {
        let mut per = "-".to_string();
        let mut total = "-".to_string();
        let mut cur = "-".to_string();
        let mut date = "-".to_string();
        let mut label = "-".to_string();
        let mut merge = false;
        let mut comps: Vec<String> = vec![];
        let (n, nc) = self.number();
        let (n2, nc2) = self.number();
        let c = self.currency();
        match self.r.below(8) {
            6 => {
                comps.push(format!("{} # {}", n, c));
                per = nc;
                cur = c;
            }
            7 => {
                comps.push(format!("# {}", c));
                cur = c;
            }
            0 => {}
            1 => {
                comps.push(format!("{} {}", n, c));
                per = nc;
                cur = c;
            }
            2 => {
                comps.push(format!("{} # {} {}", n, n2, c));
                per = nc;
                total = nc2;
                cur = c;
            }
            3 => {
                comps.push(format!("# {} {}", n, c));
                total = nc;
                cur = c;
            }
            4 => {
                comps.push(n);
                per = nc;
            }
            _ => {
                comps.push(c.clone());
                cur = c;
            }
        }
        if self.r.chance(40) {
            let (l, d) = self.date();
            comps.push(l);
            date = d;
        }
        if self.r.chance(30) {
            let (v, l) = self.string(false);
            comps.push(l);
            label = format!("{:?}", v);
        }
        if self.r.chance(15) {
            comps.push("*".into());
            merge = true;
        }
        self.r.shuffle(&mut comps);
        b.lit(&format!("{{{}}}", comps.join(", ")));
        format!("{{{} {} {} {} {} {}}}", per, total, cur, date, label, merge)
    }

    pub fn trivia(&mut self) -> Item {
        let w = if self.uni() { *self.r.pick(UNIWORDS) } else { *self.r.pick(WORDS) };
        let nl = self.nl;
        let text = match self.r.below(10) {
            7 => format!("{}:{}{}", nl, w, nl),
            8 => format!("{}{} {}{}", nl, self.r.pick(&["!", "&", "?", "%", ":", "*", "#"]), w, nl),
            6 => format!("{}!one{}&two{}?three{}:four{}", nl, nl, nl, nl, nl),
            0 => nl.to_string(),
            1 => format!("{}{}{}", nl, nl, nl),
            2 => format!("; {}{}", w, nl),
            3 => format!("{}* Heading {}{}{}", nl, w, nl, nl),
            4 => format!("{}** Sub {}{}", nl, w, nl),
            5 => format!("{};; {}{};; more{}", nl, w, nl, nl),
            _ => format!("{}# hash line {}{}", nl, w, nl),
        };
        Item::Trivia { text }
    }

    /// a comment of exactly this many bytes, more or less
    pub fn filler(&mut self, bytes: usize) -> Item {
        let nl = self.nl;
        let mut s = String::new();
        let uni = self.uni();
        while s.len() + 80 < bytes {
            s.push_str("; ");
            let n = self.r.range(20, 60);
            for _ in 0..n {
                s.push(if uni { *self.r.pick(&['é', '日', '😱', 'x', ' ']) } else { *self.r.pick(&['a', 'b', ' ', 'z']) });
            }
            s.push_str(nl);
        }
        if s.len() + 1 + nl.len() <= bytes {
            s.push(';');
            while s.len() + nl.len() < bytes {
                s.push('y');
            }
            s.push_str(nl);
        }
        Item::Trivia { text: s }
    }

    pub fn include(&mut self, pat: &str) -> Item {
        let mut b = B::new();
        b.lit("include ").mark("include", &format!("\"{}\"", pat));
        let c = self.comment();
        let nl = self.nl;
        b.lit(&c).lit(nl);
        Item::Include { text: b.s, pat: pat.to_string(), marks: b.marks }
    }

    pub fn push_tag(&mut self, tag: &str) -> Item {
        let mut b = B::new();
        b.mark("push", &format!("pushtag #{}", tag));
        let c = self.comment();
        let nl = self.nl;
        b.lit(&c).lit(nl);
        Item::PushTag { text: b.s, tag: tag.into(), marks: b.marks }
    }
    pub fn pop_tag(&mut self, tag: &str) -> Item {
        let mut b = B::new();
        b.mark("pop", &format!("poptag #{}", tag));
        let nl = self.nl;
        b.lit(nl);
        Item::PopTag { text: b.s, tag: tag.into(), marks: b.marks }
    }
    pub fn push_meta(&mut self, key: &str) -> Item {
        let mut b = B::new();
        b.lit("pushmeta ");
        b.mark("key", key);
        b.lit(": ");
        *self.id += 1;
        // now and then a value which is pushed elsewhere too
        let (id, k) = if self.r.chance(30) { (self.r.below(2), 1) } else { (*self.id, 5) };
        let (l, c) = match self.r.below(k) {
            0 => (format!("\"pushed{}\"", id), format!("S:{:?}", format!("pushed{}", id))),
            1 => (format!("{} USD", id), format!("M:{} USD", id)),
            2 => (format!("#pt{}", id), format!("T:pt{}", id)),
            3 => {
                // without numbers, of which different texts can be equal, and accounts, whose types may be renamed
                let (l, c) = if self.names.is_empty() { (String::new(), "E:".into()) } else { self.meta_value() };
                if c.starts_with("E:") || c.starts_with("M:") || c.starts_with("A:") { (format!("^pl{}", id), format!("L:pl{}", id)) } else { (l, c) }
            }
            _ => {
                let (l, c) = *self.r.pick(&[("", "N:"), ("NULL", "N:"), ("TRUE", "B:true"), ("2024-02-29", "D:2024-02-29"), ("USD", "C:USD"), ("\"é\\\"x\"", "S:\"é\\\"x\""), ("\"\"", "S:\"\"")]);
                (l.to_string(), c.to_string())
            }
        };
        // an absent value has no text to compare
        if !l.is_empty() {
            b.mark("val", &l);
        }
        let nl = self.nl;
        b.lit(nl);
        Item::PushMeta { text: b.s, key: key.into(), val: c, marks: b.marks }
    }
    pub fn pop_meta(&mut self, key: &str) -> Item {
        let mut b = B::new();
        b.mark("pop", &format!("popmeta {}:", key));
        let nl = self.nl;
        b.lit(nl);
        Item::PopMeta { text: b.s, key: key.into(), marks: b.marks }
    }
    pub fn opt(&mut self, name: &str, value: &str) -> Item {
        let mut b = B::new();
        b.lit("option ").mark("name", &format!("\"{}\"", name)).lit(" ").mark("value", &format!("\"{}\"", value));
        let c = self.comment();
        let nl = self.nl;
        b.lit(&c).lit(nl);
        Item::Opt { text: b.s, name: name.into(), value: value.into(), marks: b.marks }
    }
    pub fn plugin(&mut self) -> Item {
        *self.id += 1;
        let m = format!("plug.mod{}", *self.id);
        let mut b = B::new();
        b.lit("plugin ").mark("module", &format!("\"{}\"", m));
        let config = if self.r.chance(50) {
            let (v, l) = self.string(true);
            b.lit(" ").mark("config", &l);
            Some(v)
        } else {
            None
        };
        let nl = self.nl;
        b.lit(nl);
        Item::Plugin { text: b.s, module: m, config, marks: b.marks }
    }

    /// something wrong which is reported at a known place and disturbs nothing else
    pub fn bad(&mut self) -> Item {
        let mut b = B::new();
        *self.id += 1;
        let id = *self.id;
        let nl = self.nl;
        let (dl, _) = self.date();
        let (a, _) = self.account();
        match self.r.below(10) {
            8 => {
                b.lit(&format!("{} open {} EUR,CUR{},", dl, a, id)).mark("duplicate currency", &format!("CUR{}", id)).lit(nl);
            }
            0 => {
                b.lit(&format!("{} close {} #dup{} ", dl, a, id)).mark("duplicate tag", &format!("#dup{}", id)).lit(nl);
            }
            1 => {
                b.lit(&format!("{} open {} ^l{} ", dl, a, id)).mark("duplicate link", &format!("^l{}", id)).lit(nl);
            }
            2 => {
                b.lit("option ").mark("unknown option", &format!("\"no_such_option_{}\"", id)).lit(" \"x\"").lit(nl);
            }
            3 => {
                b.lit("option \"render_commas\" ").mark("true or false", &format!("\"maybe{}\"", id)).lit(nl);
            }
            4 => {
                b.lit(&format!("{} note {} \"x{}\"{}  aa: 1{}  ", dl, a, id, nl, nl)).mark("duplicate key", "aa").lit(": 2").lit(nl);
            }
            5 => {
                b.lit(&format!("{} price USD ", dl)).mark("division by zero", &format!("{} / 0", id)).lit(" EUR").lit(nl);
            }
            6 => {
                b.lit(&format!("{} opne {} ", dl, "word")).lit(nl);
            }
            7 => {
                b.lit(&format!("{} balance Nosuchtype{}:Cash 10 USD", dl, id)).lit(nl);
            }
            _ => {
                b.lit(&format!("!!! {} garbage", "@@")).lit(nl);
                b.s = format!("{} ~~ @@ ){}", dl, nl);
                b.marks.clear();
            }
        }
        Item::Bad { text: b.s, marks: b.marks }
    }
}

pub fn canon_meta(tags: &[String], links: &[String], kvs: &[(String, String)]) -> String {
    format!(
        "[#{} ^{} {}]",
        tags.join(" #"),
        links.join(" ^"),
        kvs.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ")
    )
}

// ---------------------------------------------------------------- include trees

pub const OPTS1: &[(&str, &[&str])] = &[
    ("title", &["My Ledger", "Über ledger", "x"]),
    ("account_previous_balances", &["Opening-Balances", "Prev:Bal"]),
    ("account_previous_earnings", &["Earnings:Previous"]),
    ("account_previous_conversions", &["Conversions:Previous"]),
    ("account_current_earnings", &["Earnings:Current"]),
    ("account_current_conversions", &["Conversions:Current"]),
    ("account_unrealized_gains", &["Unrealized"]),
    ("account_rounding", &["Rounding"]),
    ("conversion_currency", &["NOTHING", "XXX"]),
    ("inferred_tolerance_multiplier", &["1.1", "0.5", "2"]),
    ("infer_tolerance_from_cost", &["TRUE", "false", "True"]),
    ("render_commas", &["TRUE", "0", "1", "False"]),
    ("booking_method", &["STRICT", "FIFO", "LIFO", "HIFO"]),
    ("plugin_processing_mode", &["RAW", "DEFAULT"]),
    ("long_string_maxlines", &["64", "100", "2000"]),
];

fn parent_dir(p: &str) -> &str {
    &p[..p.rfind('/').unwrap()]
}

/// relative path from a directory to a file
pub fn rel(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').filter(|c| !c.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|c| !c.is_empty()).collect();
    let mut k = 0;
    while k < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
    }
    let mut out = String::new();
    for _ in k..f.len() {
        out.push_str("../");
    }
    out.push_str(&t[k..].join("/"));
    out
}

pub fn has_glob_chars(s: &str) -> bool {
    s.chars().any(|c| "*?[]\\\"".contains(c))
}

/// one of the ways to name a file in an include
fn spelling(r: &mut Rng, from_dir: &str, to: &str, noise: bool, absolute: usize) -> String {
    let rl = rel(from_dir, to);
    let abs_ok = !has_glob_chars(to);
    let mut s = if abs_ok && (r.chance(absolute) || has_glob_chars(&rl)) { to.to_string() } else { rl };
    if noise && r.chance(25) {
        if s.starts_with('/') {
            s = format!("/.{}", s);
        } else {
            match r.below(3) {
                0 => s = format!("./{}", s),
                1 => {
                    // up and down again, through the own directory
                    let base = from_dir.rsplit('/').next().unwrap_or("");
                    if !base.is_empty() && !has_glob_chars(base) {
                        s = format!("../{}/{}", base, s);
                    }
                }
                _ => s = s.replacen('/', "/./", 1),
            }
        }
    }
    s
}

pub struct GenOut {
    pub world: World,
    /// file index -> reached through a wildcard with several matches, or below such a file
    pub in_wild: Vec<bool>,
}

pub fn gen_world(r: &mut Rng, p: &Prof, base: &str, id: &mut usize) -> GenOut {
    let nfiles = r.range(p.files.0, p.files.1);
    let inline = r.chance(p.inline);
    let basedir = if r.chance(p.odd_base) {
        let odd = *r.pick(&["led[ger]", "sp ace", "日本", "st*r", "q?m", "[", "dot.dir", "a{b}", "é"]);
        format!("{}/{}", base, odd)
    } else {
        base.to_string()
    };
    let mut names: Vec<String> = DEFAULT_NAMES.iter().map(|s| s.to_string()).collect();
    let mut renamed = vec![];
    if r.chance(p.names) {
        let alt = ["Vermögen", "Schulden", "Kapital", "Einkommen", "Ausgaben"];
        for i in 0..5 {
            if r.chance(50) {
                names[i] = if r.chance(50) { alt[i].to_string() } else { format!("My{}", DEFAULT_NAMES[i]) };
                renamed.push(i);
            }
        }
    }

    // directories and file names
    let dirs = ["", "sub", "sub/deep", "other", "2023", "x.d", "späß", "with space"];
    let ext = *r.pick(&["bean", "beancount", "bean"]);
    let mut paths = vec![format!("{}/main.{}", basedir, ext)];
    let mut parent = vec![usize::MAX];
    let mut group: Vec<Option<usize>> = vec![None]; // wildcard group index
    let mut groups: Vec<(usize, String)> = vec![]; // owner file, pattern (absolute dir + rel)
    let mut in_wild = vec![false];
    let mut k = 1;
    while k < nfiles {
        let par = if r.chance(p.chain) { paths.len() - 1 } else { r.below(paths.len()) };
        if r.chance(p.wild) {
            // a group of files reached by one wildcard
            let n = if p.single_wild { 1 } else { r.range(1, (nfiles - k).min(5)) };
            let g = groups.len();
            let gd = format!("{}/g{}", basedir, g);
            let style = r.below(7);
            let pat = match style {
                0 => format!("{}/*.{}", gd, ext),
                1 => format!("{}/f?.{}", gd, ext),
                2 => format!("{}/f[0-9].{}", gd, ext),
                3 => format!("{}/**/*.{}", gd, ext),
                4 => format!("{}/d*/x.{}", gd, ext),
                5 => format!("{}/f*", gd),
                _ => format!("{}/*/*.{}", gd, ext),
            };
            for j in 0..n {
                let path = match style {
                    3 => {
                        if j % 2 == 0 {
                            format!("{}/f{}.{}", gd, j, ext)
                        } else {
                            format!("{}/in{}/f.{}", gd, j, ext)
                        }
                    }
                    4 => format!("{}/d{}/x.{}", gd, j, ext),
                    6 => format!("{}/y{}/f{}.{}", gd, j % 2, j, ext),
                    _ => format!("{}/f{}.{}", gd, j, ext),
                };
                paths.push(path);
                parent.push(par);
                group.push(Some(g));
                in_wild.push(n > 1 || in_wild[par]);
            }
            groups.push((par, pat));
            k += n;
        } else {
            let nearly = r.chance(25);
            let d = if nearly { "" } else { *r.pick(&dirs) };
            let d = if d.is_empty() { basedir.clone() } else { format!("{}/{}", basedir, d) };
            // names which are nearly the same
            let twin = k / 4;
            let nm = match if nearly { 8 + k % 4 } else { r.below(8) } {
                8 => format!("Twin{}\u{e9}", twin),
                9 => format!("twin{}\u{e9}", twin),
                10 => format!("twin{}e\u{301}", twin),
                11 => format!("twin{}\u{e9}.{}", twin, ext),
                0 => format!("fïle{}", k),
                1 => format!("file {}", k),
                2 => format!("f{}.v2", k),
                3 => format!("{}", k),
                _ => format!("f{}", k),
            };
            paths.push(format!("{}/{}.{}", d, nm, ext));
            parent.push(par);
            group.push(None);
            let w = in_wild[par];
            in_wild.push(w);
            k += 1;
        }
    }
    let n = paths.len();

    let cwd;
    let root;
    if inline {
        cwd = basedir.clone();
        root = String::new();
    } else {
        let rootp = paths[0].clone();
        match r.below(6) {
            0 => {
                cwd = "/".to_string();
                root = rootp;
            }
            1 => {
                cwd = basedir.clone();
                root = rootp.rsplit('/').next().unwrap().to_string();
            }
            2 => {
                cwd = basedir.clone();
                root = format!("./{}", rootp.rsplit('/').next().unwrap());
            }
            3 => {
                cwd = base.to_string();
                root = rel(base, &rootp);
            }
            4 => {
                cwd = format!("{}/elsewhere", base);
                root = rel(&cwd, &rootp);
            }
            _ => {
                cwd = base.to_string();
                root = rootp;
            }
        }
    }

    // contents
    let mut files: Vec<FileSpec> = Vec::new();
    let mut used_opts: Vec<&str> = vec![];
    let mut docs = 0usize;
    for f in 0..n {
        let nl = if r.chance(p.crlf) { "\r\n" } else { "\n" };
        let mut items: Vec<Item> = vec![];
        let mut c = Ctx { r: &mut *r, p: p.clone(), names: names.clone(), nl, id: &mut *id };
        if f == 0 {
            for i in &renamed {
                let o = ["name_assets", "name_liabilities", "name_equity", "name_income", "name_expenses"][*i];
                let v = c.names[*i].clone();
                let it = c.opt(o, &v);
                items.push(it);
            }
            if c.r.chance(p.long * 2) {
                used_opts.push("long_string_maxlines");
                let v = *c.r.pick(&["1", "2", "3", "4", "64"]);
                let it = c.opt("long_string_maxlines", v);
                items.push(it);
            }
        }
        let ni = c.r.range(p.items.0, p.items.1);
        let mut body: Vec<Item> = vec![];
        for _ in 0..ni {
            if c.r.chance(p.trivia) {
                let t = c.trivia();
                body.push(t);
            }
            if c.r.chance(p.bad) {
                let t = c.bad();
                body.push(t);
                continue;
            }
            if c.r.chance(p.opts) {
                match c.r.below(3) {
                    0 => {
                        let (nm, vals) = *c.r.pick(OPTS1);
                        if !used_opts.contains(&nm) {
                            used_opts.push(nm);
                            let v = *c.r.pick(vals);
                            let it = c.opt(nm, v);
                            body.push(it);
                        }
                    }
                    1 => {
                        docs += 1;
                        let v = format!("{}docs{}", c.r.pick(&["", "sub/", "a/b/"]), docs);
                        let it = c.opt("documents", &v);
                        body.push(it);
                    }
                    _ => {
                        docs += 1;
                        if c.r.chance(50) {
                            let it = c.opt("operating_currency", &format!("OC{}", docs));
                            body.push(it);
                        } else {
                            let it = if docs % 3 == 0 && !used_opts.contains(&"any") {
                                used_opts.push("any");
                                c.opt("inferred_tolerance_default", &format!("*:0.{:03}", docs))
                            } else {
                                c.opt("inferred_tolerance_default", &format!("TC{}:0.{:03}", docs, docs))
                            };
                            body.push(it);
                        }
                    }
                }
                continue;
            }
            if c.r.chance(p.plugins) {
                let it = c.plugin();
                body.push(it);
                continue;
            }
            let kind = if c.r.chance(35) { 0 } else { 12 };
            let d = c.directive(kind);
            body.push(d);
        }
        if c.r.chance(p.big) {
            let cur: usize = body.iter().map(|i| i.text().len()).sum();
            let target = *c.r.pick(&[4096usize, 8192, 8193, 16384, 32768, 65536, 65537, 8191, 1024, 130_000]);
            if target > cur + 10 {
                let it = c.filler(target - cur);
                let at = c.r.below(body.len() + 1);
                body.insert(at, it);
            }
        }
        // includes of the children, in order
        let mydir = if f == 0 && inline { cwd.clone() } else { parent_dir(&paths[f]).to_string() };
        let mut incs: Vec<Item> = vec![];
        for ch in 1..n {
            if parent[ch] == f && group[ch].is_none() {
                let s = spelling(c.r, &mydir, &paths[ch], true, p.absolute);
                let it = c.include(&s);
                incs.push(it);
            }
        }
        for (_, pat) in groups.iter().filter(|(o, _)| *o == f) {
            let rl = rel(&mydir, pat);
            let basis = &pat[..pat.rfind("/g").unwrap()];
            let s = if !has_glob_chars(basis) && c.r.chance(p.absolute) { pat.clone() } else { rl };
            // climbing above an odd base and down again would need it spelled in the pattern
            let it = c.include(&s);
            incs.push(it);
        }
        c.r.shuffle(&mut incs);
        for it in incs {
            let at = c.r.below(body.len() + 1);
            body.insert(at, it);
        }
        items.extend(body);
        // a line ignored for its first character is so only if it is a whole line
        let chop = c.r.chance(p.chop) && !matches!(items.last(), Some(Item::Trivia { .. }));
        files.push(FileSpec { path: paths[f].clone(), items, chop, raw: None });
    }

    let mut world = World { cwd, root, inline, dirs: vec![], files, links: vec![], names };
    // another file with the same contents
    if n > 1 && r.chance(p.dups.max(1) * 6) {
        let leaf = r.range(1, n - 1);
        let plain = |i: &Item| matches!(i, Item::Dir { .. } | Item::Trivia { .. });
        if world.files[leaf].items.iter().all(plain) {
            let d = if r.chance(50) { basedir.clone() } else { format!("{}/copies", basedir) };
            let path = format!("{}/copy.{}", d, ext);
            let mut f = world.files[leaf].clone();
            f.path = path.clone();
            let mydir = if inline { world.cwd.clone() } else { parent_dir(&paths[0]).to_string() };
            let s = spelling(r, &mydir, &path, true, p.absolute);
            let nl = nl_of(&world.files[0]);
            let mut c = Ctx { r: &mut *r, p: p.clone(), names: vec![], nl, id: &mut *id };
            let it = c.include(&s);
            // options of the whole ledger stay first
            let from = world.files[0].items.iter().rposition(|i| matches!(i, Item::Opt { .. })).map_or(0, |i| i + 1);
            let at = from + r.below(world.files[0].items.len() + 1 - from);
            world.files[0].items.insert(at, it);
            world.files.push(f);
            in_wild.push(false);
        }
    }
    // bystanders which must not be picked up
    if !groups.is_empty() || r.chance(20) {
        for g in 0..groups.len() {
            if r.chance(50) {
                let gd = format!("{}/g{}", basedir, g);
                for nm in [format!(".hidden.{}", ext), "f.txt~".to_string(), "README".to_string(), format!("1.{}", ext.to_uppercase())] {
                    if r.chance(40) && !nm.starts_with('f') {
                        world.files.push(FileSpec { path: format!("{}/{}", gd, nm), items: vec![Item::Bad { text: "this is not for reading\n".into(), marks: vec![] }], chop: false, raw: None });
                        in_wild.push(false);
                    }
                }
            }
        }
    }
    // a directory reached by a symbolic link as well
    if r.chance(p.links) {
        let t = ["sub", "other", "2023"][r.below(3)];
        let from = format!("{}/{}", basedir, t);
        if world.files.iter().any(|f| f.path.starts_with(&format!("{}/", from))) {
            let lnk = format!("{}/lnk_{}", basedir, t);
            world.links.push((lnk.clone(), if r.chance(50) { from.clone() } else { t.to_string() }));
            // some includes go that way
            for f in 0..n {
                let mydir = if f == 0 && inline { world.cwd.clone() } else { parent_dir(&paths[f]).to_string() };
                for i in 0..world.files[f].items.len() {
                    if let Item::Include { pat, .. } = &world.files[f].items[i] {
                        let pre = format!("{}/", t);
                        if mydir == basedir && pat.starts_with(&pre) && r.chance(60) {
                            let np = format!("lnk_{}/{}", t, &pat[pre.len()..]);
                            let nl = if world.files[f].items[i].text().ends_with("\r\n") { "\r\n" } else { "\n" };
                            let mut c = Ctx { r: &mut *r, p: p.clone(), names: vec![], nl, id: &mut *id };
                            c.p.unicode = 0;
                            world.files[f].items[i] = c.include(&np);
                        }
                    }
                }
            }
        }
    }
    if p.dups > 0 {
        add_dups(r, p, &mut world, n, &in_wild, id);
    }
    if p.push > 0 {
        add_pushes(r, p, &mut world, n, id);
    }
    GenOut { world, in_wild }
}

fn nl_of(f: &FileSpec) -> &'static str {
    if f.items.iter().any(|i| i.text().contains("\r\n")) {
        "\r\n"
    } else {
        "\n"
    }
}

/// further includes of files included already, cycles and aliases among them
fn add_dups(r: &mut Rng, p: &Prof, w: &mut World, n: usize, _in_wild: &[bool], id: &mut usize) {
    let k = r.range(1, 1 + p.dups);
    for _ in 0..k {
        let from = r.below(n);
        let to = r.below(n);
        if w.inline && to == 0 {
            continue;
        }
        let mydir = if from == 0 && w.inline { w.cwd.clone() } else { parent_dir(&w.files[from].path).to_string() };
        let mut s = spelling(r, &mydir, &w.files[to].path.clone(), true, p.absolute);
        if r.chance(30) && !has_glob_chars(parent_dir(&w.files[to].path)) {
            // a link in the same directory, so that relative includes are the same
            let d = parent_dir(&w.files[to].path).to_string();
            let base = w.files[to].path.rsplit('/').next().unwrap().to_string();
            let lp = format!("{}/alias{}", d, w.links.len());
            w.links.push((lp.clone(), if r.chance(50) { base } else { w.files[to].path.clone() }));
            s = spelling(r, &mydir, &lp, false, p.absolute);
        }
        if has_glob_chars(&s) {
            continue;
        }
        let nl = nl_of(&w.files[from]);
        let mut c = Ctx { r: &mut *r, p: p.clone(), names: vec![], nl, id: &mut *id };
        let it = c.include(&s);
        let at = c.r.below(w.files[from].items.len() + 1);
        w.files[from].items.insert(at, it);
    }
}

/// pushes and pops in the order of the traversal
fn add_pushes(r: &mut Rng, p: &Prof, w: &mut World, n: usize, id: &mut usize) {
    // the traversal: file index, position, whether it is free to leave things open
    let model = crate::model::Model::new(w);
    let order = model.traversal_points();
    let mut tags: Vec<String> = vec![];
    let mut keys: Vec<String> = vec![];
    // collect insertions first: (file, item position, item)
    let mut ins: Vec<(usize, usize, Item)> = vec![];
    let _ = n;
    for pt in &order {
        if !r.chance(p.push) {
            continue;
        }
        let nl = nl_of(&w.files[pt.file]);
        let mut c = Ctx { r: &mut *r, p: p.clone(), names: vec![], nl, id: &mut *id };
        if pt.shared {
            continue;
        }
        let what = c.r.below(5);
        match what {
            0 => {
                let t = if c.r.chance(30) && !tags.is_empty() { tags[c.r.below(tags.len())].clone() } else { c.tag() };
                tags.push(t.clone());
                ins.push((pt.file, pt.pos, c.push_tag(&t)));
            }
            1 => {
                if !tags.is_empty() {
                    // not always the last one
                    let i = if c.r.chance(60) { tags.len() - 1 } else { c.r.below(tags.len()) };
                    let t = tags.remove(i);
                    ins.push((pt.file, pt.pos, c.pop_tag(&t)));
                }
            }
            2 => {
                let k = if c.r.chance(30) && !keys.is_empty() { keys[c.r.below(keys.len())].clone() } else { c.r.pick(&["aa", "note", "pkey", "k_9", "batch"]).to_string() };
                keys.push(k.clone());
                ins.push((pt.file, pt.pos, c.push_meta(&k)));
            }
            3 => {
                if !keys.is_empty() {
                    let i = if c.r.chance(60) { keys.len() - 1 } else { c.r.below(keys.len()) };
                    let k = keys.remove(i);
                    ins.push((pt.file, pt.pos, c.pop_meta(&k)));
                }
            }
            _ => {
                if c.r.chance(p.unbalanced) {
                    if c.r.chance(50) {
                        ins.push((pt.file, pt.pos, c.pop_tag(&format!("never{}", pt.pos))));
                    } else {
                        ins.push((pt.file, pt.pos, c.pop_meta(&format!("never{}", pt.pos))));
                    }
                }
            }
        }
    }
    // close what is open at the end of the root
    {
        let nl = nl_of(&w.files[0]);
        let end = w.files[0].items.len();
        let mut c = Ctx { r: &mut *r, p: p.clone(), names: vec![], nl, id: &mut *id };
        for t in tags {
            if c.r.chance(p.unbalanced) {
                continue;
            }
            ins.push((0, end, c.pop_tag(&t)));
        }
        for k in keys {
            if c.r.chance(p.unbalanced) {
                continue;
            }
            ins.push((0, end, c.pop_meta(&k)));
        }
    }
    // insert from the back; several at one position keep their order
    for f in 0..w.files.len() {
        let mut mine: Vec<(usize, Item)> = ins.iter().filter(|i| i.0 == f).map(|i| (i.1, i.2.clone())).collect();
        // stable by position
        mine.sort_by_key(|m| m.0);
        for (pos, it) in mine.into_iter().rev() {
            w.files[f].items.insert(pos, it);
        }
    }
}
