//! Scenario data: everything a run depends on. Serialised, it is the replay file.
use crate::sim::{Chaos, Fault, Mutation};
use crate::vfs::Vfs;
use serde::{Deserialize, Serialize};

/// a labelled piece of an item's text (byte offsets within the item)
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mark(pub String, pub usize, pub usize);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    Dir {
        text: String,
        /// end of the directive proper within text
        end: usize,
        date: String,
        class: u8,
        canon: String,
        tags: Vec<String>,
        links: Vec<String>,
        meta: Vec<(String, String)>,
        marks: Vec<Mark>,
    },
    PushTag { text: String, tag: String, marks: Vec<Mark> },
    PopTag { text: String, tag: String, marks: Vec<Mark> },
    PushMeta { text: String, key: String, val: String, marks: Vec<Mark> },
    PopMeta { text: String, key: String, marks: Vec<Mark> },
    Include { text: String, pat: String, marks: Vec<Mark> },
    /// name, value as unescaped
    Opt { text: String, name: String, value: String, marks: Vec<Mark> },
    Plugin { text: String, module: String, config: Option<String>, marks: Vec<Mark> },
    Trivia { text: String },
    /// not well-formed: exact errors expected at the marks (message part as label), or, where
    /// there are none, at least one error somewhere in it
    Bad { text: String, marks: Vec<Mark> },
}

impl Item {
    pub fn text(&self) -> &str {
        match self {
            Item::Dir { text, .. }
            | Item::PushTag { text, .. }
            | Item::PopTag { text, .. }
            | Item::PushMeta { text, .. }
            | Item::PopMeta { text, .. }
            | Item::Include { text, .. }
            | Item::Opt { text, .. }
            | Item::Plugin { text, .. }
            | Item::Trivia { text }
            | Item::Bad { text, .. } => text,
        }
    }
    pub fn marks(&self) -> &[Mark] {
        match self {
            Item::Dir { marks, .. }
            | Item::PushTag { marks, .. }
            | Item::PopTag { marks, .. }
            | Item::PushMeta { marks, .. }
            | Item::PopMeta { marks, .. }
            | Item::Include { marks, .. }
            | Item::Opt { marks, .. }
            | Item::Plugin { marks, .. }
            | Item::Bad { marks, .. } => marks,
            Item::Trivia { .. } => &[],
        }
    }
    pub fn mark(&self, label: &str) -> Option<&Mark> {
        self.marks().iter().find(|m| m.0 == label)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileSpec {
    pub path: String,
    pub items: Vec<Item>,
    /// drop the last newline
    #[serde(default)]
    pub chop: bool,
    /// the bytes on disk where they are not simply the items
    #[serde(default)]
    pub raw: Option<Vec<u8>>,
}

impl FileSpec {
    pub fn text(&self) -> String {
        let mut s: String = self.items.iter().map(|i| i.text()).collect();
        if self.chop {
            if s.ends_with("\r\n") {
                s.truncate(s.len() - 2);
            } else if s.ends_with('\n') {
                s.truncate(s.len() - 1);
            }
        }
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        match &self.raw {
            Some(b) => b.clone(),
            None => self.text().into_bytes(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct World {
    pub cwd: String,
    /// as given to the library; ignored where inline
    pub root: String,
    /// the root content is given as a string; files[0] is it, and is not on the disk
    pub inline: bool,
    pub dirs: Vec<String>,
    /// files[0] is the root
    pub files: Vec<FileSpec>,
    pub links: Vec<(String, String)>,
    /// names for assets, liabilities, equity, income, expenses as set in the root file
    #[serde(default)]
    pub names: Vec<String>,
}

impl World {
    pub fn vfs(&self) -> Vfs {
        let mut v = Vfs::new();
        v.mkdirs(&self.cwd);
        for d in &self.dirs {
            v.mkdirs(d);
        }
        for (i, f) in self.files.iter().enumerate() {
            if i == 0 && self.inline {
                continue;
            }
            v.put_file(&f.path, f.bytes());
        }
        for (p, t) in &self.links {
            v.put_link(p, t);
        }
        v.set_cwd(&self.cwd);
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HOp {
    Parse(usize),
    NewParser(usize),
    Clone(usize),
    Drop(usize),
    Report(usize),
    Resolve(usize),
    /// create under a name (by index) this fragment
    Create(String, String),
    ResolveSyn(usize),
    ReportSyn(usize),
    CloneSyn,
    /// next attempt on ledger i
    Attempt(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WStep {
    Accept(usize),
    All,
    Interrupt,
    Zero,
    Fail(String),
    FailFlush,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Scenario {
    pub property: String,
    pub seed: u64,
    pub kind: String,
    pub worlds: Vec<World>,
    #[serde(default)]
    pub faults: Vec<Vec<Fault>>,
    #[serde(default)]
    pub chaos: Vec<Chaos>,
    #[serde(default)]
    pub mutations: Vec<Mutation>,
    /// further versions of files, for mutations: (file index, version items)
    #[serde(default)]
    pub versions: Vec<(usize, FileSpec)>,
    #[serde(default)]
    pub hops: Vec<HOp>,
    #[serde(default)]
    pub wsteps: Vec<WStep>,
    #[serde(default)]
    pub slices: Vec<(u8, u32)>,
    #[serde(default)]
    pub sched_mask: u8,
    #[serde(default)]
    pub sched_tail: u32,
    /// per thread: what it does
    #[serde(default)]
    pub threads: Vec<Vec<HOp>>,
    #[serde(default)]
    pub nums: Vec<u64>,
    #[serde(default)]
    pub note: String,
}
