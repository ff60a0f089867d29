//! A file system in memory: what the file functions do to it.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    Dir,
    File(Vec<u8>),
}

pub type Place = Vec<String>;

/// The tree below a root directory; the root itself is not listed.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Fs {
    pub nodes: BTreeMap<Place, Node>,
}

/// Where a path leads.
#[derive(Clone, Debug, PartialEq)]
pub enum At {
    /// to something that exists
    Found(Place),
    /// to a name in a directory that exists that is not there
    New(Place),
    /// nowhere: a directory on the way is missing or is a file
    Nowhere,
    /// out of the root
    Outside,
}

impl Fs {
    pub fn get(&self, p: &Place) -> Option<Node> {
        if p.is_empty() {
            Some(Node::Dir)
        } else {
            self.nodes.get(p).cloned()
        }
    }
    pub fn is_dir(&self, p: &Place) -> bool {
        self.get(p) == Some(Node::Dir)
    }
    /// `path`, a text below the root, as the operating system resolves it.
    pub fn find(&self, path: &str) -> At {
        let mut at: Place = vec![];
        let parts: Vec<&str> = path.split('/').collect();
        for (i, part) in parts.iter().enumerate() {
            let last = i + 1 == parts.len();
            if !self.is_dir(&at) {
                return At::Nowhere;
            }
            match *part {
                "" | "." => {}
                ".." => {
                    if at.pop().is_none() {
                        return At::Outside;
                    }
                }
                name => {
                    at.push(name.into());
                    if self.get(&at).is_none() {
                        // only blanks may follow a name that is not there
                        return if last { At::New(at) } else { At::Nowhere };
                    }
                }
            }
        }
        At::Found(at)
    }
    pub fn children(&self, p: &Place) -> Vec<String> {
        self.nodes.keys().filter(|k| k.len() == p.len() + 1 && k.starts_with(p)).map(|k| k.last().unwrap().clone()).collect()
    }
    pub fn below(&self, p: &Place) -> Vec<(Place, Node)> {
        self.nodes.iter().filter(|(k, _)| k.len() > p.len() && k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_vec(), v.clone())).collect()
    }
    pub fn remove(&mut self, p: &Place) {
        self.nodes.retain(|k, _| !k.starts_with(p))
    }
    /// Create a directory and those on the way to it.
    pub fn make_dirs(&mut self, path: &str) -> Result<(), ()> {
        let mut so_far = String::new();
        for part in path.split('/').filter(|p| !p.is_empty() && *p != ".") {
            so_far = if so_far.is_empty() { part.to_string() } else { format!("{so_far}/{part}") };
            match self.find(&so_far) {
                At::Found(p) if self.is_dir(&p) => {}
                At::New(p) => {
                    self.nodes.insert(p, Node::Dir);
                }
                _ => return Err(()),
            }
        }
        Ok(())
    }
    pub fn write(&mut self, path: &str, data: &[u8]) -> Result<(), ()> {
        match self.find(path) {
            At::Found(p) if !self.is_dir(&p) => {
                self.nodes.insert(p, Node::File(data.to_vec()));
                Ok(())
            }
            At::New(p) => {
                self.nodes.insert(p, Node::File(data.to_vec()));
                Ok(())
            }
            _ => Err(()),
        }
    }
    /// Read the real directory `root`.
    pub fn scan(root: &Path) -> Fs {
        fn go(dir: &Path, at: &Place, fs: &mut Fs) {
            for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
                let mut p = at.clone();
                p.push(e.file_name().to_string_lossy().into_owned());
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    fs.nodes.insert(p.clone(), Node::Dir);
                    if p.len() < 12 {
                        go(&e.path(), &p, fs)
                    }
                } else {
                    fs.nodes.insert(p, Node::File(std::fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
        let mut fs = Fs::default();
        go(root, &vec![], &mut fs);
        fs
    }
    /// Make the (empty) real directory `root` look like this.
    pub fn build(&self, root: &Path) {
        for (p, n) in &self.nodes {
            let path = root.join(p.join("/"));
            match n {
                Node::Dir => std::fs::create_dir(path).unwrap(),
                Node::File(d) => std::fs::write(path, d).unwrap(),
            }
        }
    }
    pub fn show(&self) -> String {
        self.nodes
            .iter()
            .map(|(p, n)| match n {
                Node::Dir => format!("{}/", p.join("/")),
                Node::File(d) => format!("{}={:?}", p.join("/"), String::from_utf8_lossy(d)),
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
}
