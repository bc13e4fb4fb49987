//! The model tree: what the filesystem contains. This is the oracle.

use crate::disk::pattern;
use std::collections::BTreeMap;

pub const S_IFIFO: u16 = 0x1000;
pub const S_IFCHR: u16 = 0x2000;
pub const S_IFDIR: u16 = 0x4000;
pub const S_IFBLK: u16 = 0x6000;
pub const S_IFREG: u16 = 0x8000;
pub const S_IFLNK: u16 = 0xa000;
pub const S_IFSOCK: u16 = 0xc000;

pub const FL_ENCRYPT: u32 = 0x800;
pub const FL_INDEX: u32 = 0x1000;
pub const FL_EXTENTS: u32 = 0x8_0000;

#[derive(Clone, Debug)]
pub struct DEnt {
    pub name: Vec<u8>,
    pub ino: u32,
    pub ft: u8,
}

#[derive(Clone, Debug)]
pub enum Content {
    /// Blocks holding pattern data; runs of (lblk, len), sorted.
    Pat { key: u64, bs: u32, runs: Vec<(u32, u32)> },
    Bytes(Vec<u8>),
}

impl Content {
    /// Render bytes [off, off+out.len()) (the caller keeps this within size).
    pub fn read(&self, off: u64, out: &mut [u8]) {
        match self {
            Content::Bytes(b) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = b.get(off as usize + i).copied().unwrap_or(0);
                }
            }
            Content::Pat { key, bs, runs } => {
                let bs64 = *bs as u64;
                let mut tmp = vec![0; *bs as usize];
                let mut pos = off;
                let mut i = 0;
                while i < out.len() {
                    let lblk = (pos / bs64) as u32;
                    let o = (pos % bs64) as usize;
                    let n = (*bs as usize - o).min(out.len() - i);
                    let idx = runs.partition_point(|r| r.0 <= lblk);
                    let data = idx > 0 && {
                        let r = runs[idx - 1];
                        (lblk as u64) < r.0 as u64 + r.1 as u64
                    };
                    if data {
                        pattern(*key, lblk, &mut tmp);
                        out[i..i + n].copy_from_slice(&tmp[o..o + n]);
                    } else {
                        out[i..i + n].fill(0);
                    }
                    i += n;
                    pos += n as u64;
                }
            }
        }
    }
    pub fn all(&self, size: u64) -> Vec<u8> {
        let mut v = vec![0; size as usize];
        self.read(0, &mut v);
        v
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Reg(Content),
    Dir(Vec<DEnt>),
    Link(Vec<u8>),
    Special,
}

#[derive(Clone, Debug)]
pub struct MInode {
    pub ino: u32,
    pub mode: u16,
    pub uid: u32,
    pub gid: u32,
    pub size: u64,
    pub flags: u32,
    pub kind: Kind,
    /// Free-form note on how it is laid out (for samples and reports).
    pub note: String,
}

impl MInode {
    pub fn ft(&self) -> u8 {
        ft_of_mode(self.mode)
    }
    pub fn encrypted(&self) -> bool {
        self.flags & FL_ENCRYPT != 0
    }
    pub fn is_dir(&self) -> bool {
        self.mode & 0xf000 == S_IFDIR
    }
    pub fn is_link(&self) -> bool {
        self.mode & 0xf000 == S_IFLNK
    }
    pub fn is_reg(&self) -> bool {
        self.mode & 0xf000 == S_IFREG
    }
    pub fn entries(&self) -> &[DEnt] {
        match &self.kind {
            Kind::Dir(e) => e,
            _ => &[],
        }
    }
}

pub fn ft_of_mode(mode: u16) -> u8 {
    match mode & 0xf000 {
        S_IFREG => 1,
        S_IFDIR => 2,
        S_IFCHR => 3,
        S_IFBLK => 4,
        S_IFIFO => 5,
        S_IFSOCK => 6,
        S_IFLNK => 7,
        _ => 0,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub inodes: BTreeMap<u32, MInode>,
    pub label: [u8; 16],
    pub uuid: [u8; 16],
}

impl Model {
    pub fn get(&self, ino: u32) -> &MInode {
        &self.inodes[&ino]
    }
    /// Directory paths (one per directory, from the root), without following
    /// symlinks and without entering encrypted directories.
    pub fn dir_paths(&self) -> Vec<(Vec<u8>, u32)> {
        let mut out = vec![(b"/".to_vec(), 2u32)];
        let mut i = 0;
        while i < out.len() {
            let (p, ino) = out[i].clone();
            i += 1;
            let n = self.get(ino);
            if n.encrypted() {
                continue;
            }
            for e in n.entries() {
                if e.name == b"." || e.name == b".." {
                    continue;
                }
                if self.get(e.ino).is_dir() {
                    out.push((join(&p, &e.name), e.ino));
                }
            }
        }
        out
    }
    /// All (path, ino) pairs of entries other than . and .., in reachable
    /// unencrypted directories.
    pub fn all_paths(&self) -> Vec<(Vec<u8>, u32)> {
        let mut out = Vec::new();
        for (p, ino) in self.dir_paths() {
            let n = self.get(ino);
            if n.encrypted() {
                continue;
            }
            for e in n.entries() {
                if e.name != b"." && e.name != b".." {
                    out.push((join(&p, &e.name), e.ino));
                }
            }
        }
        out
    }
    pub fn lookup(&self, dir: u32, name: &[u8]) -> Option<u32> {
        self.get(dir)
            .entries()
            .iter()
            .find(|e| e.name == name)
            .map(|e| e.ino)
    }
}

pub fn join(p: &[u8], name: &[u8]) -> Vec<u8> {
    let mut v = p.to_vec();
    if v.last() != Some(&b'/') {
        v.push(b'/');
    }
    v.extend_from_slice(name);
    v
}
