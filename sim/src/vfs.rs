//! In-memory file system: directories, regular files, symbolic links, with kernel-like path
//! resolution. Paths are byte strings; everything is case sensitive.
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Ino = usize;

#[derive(Clone, Debug)]
pub enum Node {
    File(Arc<Vec<u8>>),
    Dir(BTreeMap<Vec<u8>, Ino>, Ino), // entries, parent
    Link(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub nodes: Vec<Node>,
    pub cwd: Ino,
}

pub struct Found {
    pub ino: Ino,
    pub canon: Vec<u8>,
}

impl Default for Vfs {
    fn default() -> Self {
        Self::new()
    }
}

impl Vfs {
    pub fn new() -> Self {
        Vfs { nodes: vec![Node::Dir(BTreeMap::new(), 0)], cwd: 0 }
    }

    /// mkdir -p of an absolute path without links
    pub fn mkdirs(&mut self, path: &str) -> Ino {
        let mut cur = 0;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            let found = match &self.nodes[cur] {
                Node::Dir(e, _) => e.get(c.as_bytes()).copied(),
                _ => panic!("mkdirs: {path} passes through a non-directory"),
            };
            cur = match found {
                Some(i) => i,
                None => {
                    self.nodes.push(Node::Dir(BTreeMap::new(), cur));
                    let i = self.nodes.len() - 1;
                    self.set_entry(cur, c.as_bytes(), i);
                    i
                }
            };
        }
        cur
    }

    fn set_entry(&mut self, dir: Ino, name: &[u8], ino: Ino) {
        if let Node::Dir(e, _) = &mut self.nodes[dir] {
            e.insert(name.to_vec(), ino);
        }
    }

    fn split(path: &str) -> (&str, &str) {
        let i = path.rfind('/').expect("absolute path");
        (&path[..i], &path[i + 1..])
    }

    /// create or atomically replace (as rename does: a new inode)
    pub fn put_file(&mut self, path: &str, data: Vec<u8>) {
        let (d, n) = Self::split(path);
        let dir = self.mkdirs(d);
        self.nodes.push(Node::File(Arc::new(data)));
        let i = self.nodes.len() - 1;
        self.set_entry(dir, n.as_bytes(), i);
    }

    pub fn put_bytes_name(&mut self, dir: &str, name: &[u8], data: Vec<u8>) {
        let dir = self.mkdirs(dir);
        self.nodes.push(Node::File(Arc::new(data)));
        let i = self.nodes.len() - 1;
        self.set_entry(dir, name, i);
    }

    /// another name, of any bytes, in the same directory
    pub fn rename(&mut self, dir: &str, from: &[u8], to: &[u8]) {
        let dir = self.mkdirs(dir);
        if let Node::Dir(e, _) = &mut self.nodes[dir] {
            if let Some(i) = e.remove(from) {
                e.insert(to.to_vec(), i);
            }
        }
    }

    pub fn put_link(&mut self, path: &str, target: &str) {
        let (d, n) = Self::split(path);
        let dir = self.mkdirs(d);
        self.nodes.push(Node::Link(target.as_bytes().to_vec()));
        let i = self.nodes.len() - 1;
        self.set_entry(dir, n.as_bytes(), i);
    }

    pub fn remove(&mut self, path: &str) {
        let (d, n) = Self::split(path);
        let dir = self.mkdirs(d);
        if let Node::Dir(e, _) = &mut self.nodes[dir] {
            e.remove(n.as_bytes());
        }
    }

    pub fn set_cwd(&mut self, path: &str) {
        self.cwd = self.mkdirs(path);
    }

    pub fn canon_of(&self, mut ino: Ino) -> Vec<u8> {
        // only for directories
        let mut parts: Vec<Vec<u8>> = Vec::new();
        while ino != 0 {
            let parent = match &self.nodes[ino] {
                Node::Dir(_, p) => *p,
                _ => unreachable!(),
            };
            if let Node::Dir(e, _) = &self.nodes[parent] {
                let name = e
                    .iter()
                    .find(|(_, i)| **i == ino)
                    .map(|(n, _)| n.clone())
                    .unwrap_or_else(|| b"(deleted)".to_vec());
                parts.push(name);
            }
            ino = parent;
        }
        let mut out = Vec::new();
        for p in parts.iter().rev() {
            out.push(b'/');
            out.extend_from_slice(p);
        }
        if out.is_empty() {
            out.push(b'/');
        }
        out
    }

    /// resolve as the kernel does
    pub fn resolve(&self, path: &[u8], follow_last: bool) -> Result<Found, i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut links = 0usize;
        self.walk(path, self.cwd, follow_last, &mut links)
    }

    fn walk(&self, path: &[u8], base: Ino, follow_last: bool, links: &mut usize) -> Result<Found, i32> {
        let mut cur = if path.first() == Some(&b'/') { 0 } else { base };
        let comps: Vec<&[u8]> = path.split(|c| *c == b'/').filter(|c| !c.is_empty()).collect();
        let must_dir = path.last() == Some(&b'/');
        let n = comps.len();
        let mut result: Option<(Ino, Ino, Vec<u8>)> = None; // final non-dir: ino, parent dir, name
        for (k, c) in comps.iter().enumerate() {
            if result.is_some() {
                return Err(libc::ENOTDIR);
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            let Node::Dir(entries, parent) = &self.nodes[cur] else {
                return Err(libc::ENOTDIR);
            };
            if *c == b"." {
                continue;
            }
            if *c == b".." {
                cur = *parent;
                continue;
            }
            let Some(&ino) = entries.get(*c) else {
                return Err(libc::ENOENT);
            };
            let last = k + 1 == n;
            match &self.nodes[ino] {
                Node::Dir(..) => cur = ino,
                Node::File(_) => result = Some((ino, cur, c.to_vec())),
                Node::Link(target) => {
                    if last && !follow_last && !must_dir {
                        result = Some((ino, cur, c.to_vec()));
                    } else {
                        *links += 1;
                        if *links > 40 {
                            return Err(libc::ELOOP);
                        }
                        let f = self.walk(target, cur, true, links)?;
                        match &self.nodes[f.ino] {
                            Node::Dir(..) => cur = f.ino,
                            _ => {
                                if !last {
                                    return Err(libc::ENOTDIR);
                                }
                                if must_dir {
                                    return Err(libc::ENOTDIR);
                                }
                                return Ok(f);
                            }
                        }
                    }
                }
            }
        }
        match result {
            Some((ino, parent, name)) => {
                if must_dir {
                    return Err(libc::ENOTDIR);
                }
                let mut canon = self.canon_of(parent);
                if canon.last() != Some(&b'/') {
                    canon.push(b'/');
                }
                canon.extend_from_slice(&name);
                Ok(Found { ino, canon })
            }
            None => Ok(Found { ino: cur, canon: self.canon_of(cur) }),
        }
    }

    pub fn canon_str(&self, path: &str) -> Option<String> {
        self.resolve(path.as_bytes(), true).ok().map(|f| String::from_utf8_lossy(&f.canon).into_owned())
    }

    pub fn is_dir(&self, ino: Ino) -> bool {
        matches!(self.nodes[ino], Node::Dir(..))
    }
}
