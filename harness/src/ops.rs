//! Public operations as values, their results in a canonical form, and what
//! the model says those results must be.

use crate::model::*;
use crate::mon::MonErr;
use crate::rng::{mix, Rng};
use ext4_view::{Ext4, Ext4Error, FileType, Metadata, Path};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum ErrK {
    NotAbsolute,
    NotASymlink,
    NotFound,
    IsADirectory,
    NotADirectory,
    IsASpecialFile,
    FileTooLarge,
    NotUtf8,
    MalformedPath,
    PathTooLong,
    TooManySymlinks,
    Encrypted,
    /// The monitored reader's error id, if it is the reader's own error.
    Io(Option<u64>),
    Incompatible,
    Corrupt,
    Other,
}

pub fn errk(e: &Ext4Error) -> ErrK {
    if std::env::var_os("HARNESS_RAW").is_some() {
        eprintln!("raw error: {:?}", e);
    }
    match e {
        Ext4Error::NotAbsolute => ErrK::NotAbsolute,
        Ext4Error::NotASymlink => ErrK::NotASymlink,
        Ext4Error::NotFound => ErrK::NotFound,
        Ext4Error::IsADirectory => ErrK::IsADirectory,
        Ext4Error::NotADirectory => ErrK::NotADirectory,
        Ext4Error::IsASpecialFile => ErrK::IsASpecialFile,
        Ext4Error::FileTooLarge => ErrK::FileTooLarge,
        Ext4Error::NotUtf8 => ErrK::NotUtf8,
        Ext4Error::MalformedPath => ErrK::MalformedPath,
        Ext4Error::PathTooLong => ErrK::PathTooLong,
        Ext4Error::TooManySymlinks => ErrK::TooManySymlinks,
        Ext4Error::Encrypted => ErrK::Encrypted,
        Ext4Error::Io(b) => ErrK::Io(b.downcast_ref::<MonErr>().map(|m| m.id)),
        Ext4Error::Incompatible(_) => ErrK::Incompatible,
        Ext4Error::Corrupt(_) => ErrK::Corrupt,
        _ => ErrK::Other,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct MetaV {
    pub ft: u8,
    pub mode: u16,
    pub size: u64,
    pub uid: u32,
    pub gid: u32,
}

pub fn ftv(t: FileType) -> u8 {
    // Each predicate must hold exactly for its own type.
    let p = [
        t.is_regular_file(),
        t.is_dir(),
        t.is_char_dev(),
        t.is_block_dev(),
        t.is_fifo(),
        t.is_socket(),
        t.is_symlink(),
    ];
    let n = p.iter().filter(|x| **x).count();
    if n != 1 {
        return 100;
    }
    let i = p.iter().position(|x| *x).unwrap() as u8 + 1;
    let e = match t {
        FileType::Regular => 1,
        FileType::Directory => 2,
        FileType::CharacterDevice => 3,
        FileType::BlockDevice => 4,
        FileType::Fifo => 5,
        FileType::Socket => 6,
        FileType::Symlink => 7,
    };
    if i == e {
        i
    } else {
        101
    }
}

pub fn metav(m: &Metadata) -> MetaV {
    let ft = ftv(m.file_type());
    let ft = if m.is_dir() != (ft == 2) || m.is_symlink() != (ft == 7) { 102 } else { ft };
    MetaV { ft, mode: m.mode(), size: m.len(), uid: m.uid(), gid: m.gid() }
}

pub fn model_metav(n: &MInode) -> MetaV {
    MetaV { ft: n.ft(), mode: n.mode & 0o7777, size: n.size, uid: n.uid, gid: n.gid }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ent {
    pub name: Vec<u8>,
    pub ft: Result<u8, ErrK>,
    pub path: Vec<u8>,
    pub meta: Option<Result<MetaV, ErrK>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Bytes { len: u64, dig: u64 },
    Path(Vec<u8>),
    List(Vec<Ent>),
    Bool(bool),
    Meta(MetaV),
    Err(ErrK),
    /// A listing that failed after some entries.
    ErrAfter(Vec<Ent>, ErrK),
}

impl Out {
    pub fn err(&self) -> Option<&ErrK> {
        match self {
            Out::Err(e) | Out::ErrAfter(_, e) => Some(e),
            _ => None,
        }
    }
    pub fn is_err(&self) -> bool {
        self.err().is_some()
    }
    pub fn short(&self) -> String {
        let s = match self {
            Out::Path(p) => format!("Path({})", esc(p)),
            Out::List(v) => format!("List({} entries: {})", v.len(), ents(v)),
            Out::ErrAfter(v, e) => format!("ErrAfter({} entries: {}, {:?})", v.len(), ents(v), e),
            o => format!("{:?}", o),
        };
        if s.len() > 700 {
            format!("{}...", s.chars().take(700).collect::<String>())
        } else {
            s
        }
    }
}

fn ents(v: &[Ent]) -> String {
    v.iter()
        .take(8)
        .map(|e| format!("{} ft={:?} meta={:?}", esc(&e.name), e.ft, e.meta))
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn esc(b: &[u8]) -> String {
    let s: String = b.iter().take(200).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 200 {
        format!("\"{}...\"({} bytes)", s, b.len())
    } else {
        format!("\"{}\"", s)
    }
}

pub fn digest(b: &[u8]) -> u64 {
    let mut h = mix(b.len() as u64);
    let mut c = b.chunks_exact(8);
    for x in &mut c {
        h = (h ^ u64::from_le_bytes(x.try_into().unwrap())).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    for x in c.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OpK {
    Canon,
    Read,
    ReadStr,
    ReadLink,
    List,
    /// List, and take the metadata of each entry.
    ListMeta,
    Exists,
    Meta,
    SymMeta,
    /// Open and read to the end in pieces (seeded sizes).
    Open(u64),
    /// Metadata of the open file.
    OpenMeta,
    /// Open, seek to position, read up to n bytes.
    OpenAt(u64, u32),
}

pub const OPKINDS: [OpK; 12] = [
    OpK::Canon,
    OpK::Read,
    OpK::ReadStr,
    OpK::ReadLink,
    OpK::List,
    OpK::ListMeta,
    OpK::Exists,
    OpK::Meta,
    OpK::SymMeta,
    OpK::Open(7),
    OpK::OpenMeta,
    OpK::OpenAt(3, 9),
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub k: OpK,
    pub path: Vec<u8>,
}

impl Op {
    pub fn show(&self) -> String {
        format!("{:?}({})", self.k, esc(&self.path))
    }
}

pub fn meta_out(r: Result<Metadata, Ext4Error>) -> Out {
    match r {
        Ok(m) => Out::Meta(metav(&m)),
        Err(e) => Out::Err(errk(&e)),
    }
}

/// List a directory through an already created iterator.
pub fn drain(it: ext4_view::ReadDir, with_meta: bool, max: usize) -> Out {
    let mut v = Vec::new();
    let mut err = None;
    let mut it = it;
    while let Some(x) = it.next() {
        match x {
            Ok(e) => {
                v.push(Ent {
                    name: e.file_name().as_ref().to_vec(),
                    ft: e.file_type().map(ftv).map_err(|e| errk(&e)),
                    path: AsRef::<[u8]>::as_ref(&e.path()).to_vec(),
                    meta: with_meta.then(|| e.metadata().map(|m| metav(&m)).map_err(|e| errk(&e))),
                });
            }
            Err(e) => {
                err = Some(errk(&e));
                // Nothing may follow an error.
                if it.next().is_some() {
                    err = Some(ErrK::Other);
                }
                break;
            }
        }
        if v.len() >= max {
            break;
        }
    }
    v.sort();
    match err {
        None => {
            // Nothing may follow the end.
            if v.len() < max && (it.next().is_some() || it.next().is_some()) {
                return Out::Err(ErrK::Other);
            }
            Out::List(v)
        }
        Some(e) if v.is_empty() => Out::Err(e),
        Some(e) => Out::ErrAfter(v, e),
    }
}

/// Read an open file to its end with buffers of random sizes.
pub fn read_pieces(f: &mut ext4_view::File, seed: u64, cap: usize) -> Result<Vec<u8>, Ext4Error> {
    let mut r = Rng::new(seed);
    let mut out = Vec::new();
    let big = r.chance(1, 2);
    let mut buf = vec![0u8; 70_000];
    loop {
        let n = if big { r.range(1, 70_000) } else { r.range(1, 700) } as usize;
        buf[..n].fill(0xcc);
        let got = f.read_bytes(&mut buf[..n])?;
        if got == 0 || got > n {
            return Ok(out);
        }
        out.extend_from_slice(&buf[..got]);
        if out.len() > cap {
            return Ok(out);
        }
    }
}

pub fn exec(fs: &Ext4, op: &Op) -> Out {
    let p = op.path.as_slice();
    macro_rules! err {
        ($e:expr) => {
            return Out::Err(errk(&$e))
        };
    }
    match &op.k {
        OpK::Canon => match fs.canonicalize(p) {
            Ok(x) => Out::Path(AsRef::<[u8]>::as_ref(&x).to_vec()),
            Err(e) => err!(e),
        },
        OpK::Read => match fs.read(p) {
            Ok(x) => Out::Bytes { len: x.len() as u64, dig: digest(&x) },
            Err(e) => err!(e),
        },
        OpK::ReadStr => match fs.read_to_string(p) {
            Ok(x) => Out::Bytes { len: x.len() as u64, dig: digest(x.as_bytes()) },
            Err(e) => err!(e),
        },
        OpK::ReadLink => match fs.read_link(p) {
            Ok(x) => Out::Path(AsRef::<[u8]>::as_ref(&x).to_vec()),
            Err(e) => err!(e),
        },
        OpK::List | OpK::ListMeta => match fs.read_dir(p) {
            Ok(it) => drain(it, op.k == OpK::ListMeta, usize::MAX),
            Err(e) => err!(e),
        },
        OpK::Exists => match fs.exists(p) {
            Ok(b) => Out::Bool(b),
            Err(e) => err!(e),
        },
        OpK::Meta => meta_out(fs.metadata(p)),
        OpK::SymMeta => meta_out(fs.symlink_metadata(p)),
        OpK::Open(seed) => match fs.open(p) {
            Ok(mut f) => match read_pieces(&mut f, *seed, usize::MAX) {
                Ok(v) => Out::Bytes { len: v.len() as u64, dig: digest(&v) },
                Err(e) => err!(e),
            },
            Err(e) => err!(e),
        },
        OpK::OpenMeta => match fs.open(p) {
            Ok(f) => Out::Meta(metav(f.metadata())),
            Err(e) => err!(e),
        },
        OpK::OpenAt(pos, n) => match fs.open(p) {
            Ok(mut f) => {
                if let Err(e) = f.seek_to(*pos) {
                    err!(e);
                }
                let mut v = vec![0xcc; *n as usize];
                let mut i = 0;
                while i < v.len() {
                    match f.read_bytes(&mut v[i..]) {
                        Ok(0) => break,
                        Ok(k) => i += k,
                        Err(e) => err!(e),
                    }
                }
                v.truncate(i);
                Out::Bytes { len: v.len() as u64, dig: digest(&v) }
            }
            Err(e) => err!(e),
        },
    }
}

// ---------------------------------------------------------------- model

/// Outcome of resolution according to Unix rules.
#[derive(Clone, Debug)]
pub struct Resolved {
    /// Acceptable results (ino, canonical path); more than one when the
    /// documentation leaves the choice open. Empty: anything goes.
    pub any: Vec<Result<(u32, Vec<u8>), ErrK>>,
    pub symlinks: u32,
    pub comps: u32,
}

pub fn valid_path(p: &[u8]) -> bool {
    !p.contains(&0) && p.split(|b| *b == b'/').all(|c| c.len() <= 255)
}

fn norm_len(b: &[u8]) -> usize {
    b.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").map(|c| c.len() + 1).sum()
}

pub fn resolve(m: &Model, path: &[u8], follow_last: bool) -> Resolved {
    let mut res = Resolved { any: vec![], symlinks: 0, comps: 0 };
    macro_rules! ret {
        ($x:expr) => {{
            res.any.push($x);
            return res;
        }};
    }
    if !valid_path(path) {
        ret!(Err(ErrK::MalformedPath));
    }
    if path.first() != Some(&b'/') {
        ret!(Err(ErrK::NotAbsolute));
    }
    if path.len() > 4096 {
        ret!(Err(ErrK::PathTooLong));
    }
    // Stack of (name, ino) below the root.
    let mut stack: Vec<(Vec<u8>, u32)> = Vec::new();
    let mut rest: Vec<u8> = path.to_vec();
    let cur = |stack: &Vec<(Vec<u8>, u32)>| stack.last().map(|x| x.1).unwrap_or(2);
    let mut i = 0;
    loop {
        // Skip separators.
        while i < rest.len() && rest[i] == b'/' {
            i += 1;
        }
        if i == rest.len() {
            break;
        }
        let e = rest[i..].iter().position(|b| *b == b'/').map(|k| i + k).unwrap_or(rest.len());
        let comp = rest[i..e].to_vec();
        res.comps += 1;
        let dir = cur(&stack);
        let dn = m.get(dir);
        if !dn.is_dir() {
            ret!(Err(ErrK::NotADirectory));
        }
        if dn.encrypted() {
            if comp == b"." || comp == b".." {
                return Resolved { any: vec![], ..res };
            }
            ret!(Err(ErrK::Encrypted));
        }
        if comp == b"." {
            i = e;
            continue;
        }
        if comp == b".." {
            stack.pop();
            i = e;
            continue;
        }
        let Some(child) = m.lookup(dir, &comp) else { ret!(Err(ErrK::NotFound)) };
        let cn = m.get(child);
        let tail = &rest[e..];
        let last = tail.iter().all(|b| *b == b'/');
        if cn.is_link() && (follow_last || !last || !tail.is_empty()) {
            if !follow_last && last {
                // lstat("link/"): Unix follows, the library documents only
                // that the final component is not followed.
                let mut r = resolve(m, path, true);
                r.any.push(Err(ErrK::NotADirectory));
                return r;
            }
            res.symlinks += 1;
            if res.symlinks > 40 {
                ret!(Err(ErrK::TooManySymlinks));
            }
            if cn.encrypted() {
                ret!(Err(ErrK::Encrypted));
            }
            let Kind::Link(t) = &cn.kind else { unreachable!() };
            let prefix: usize = if t.first() == Some(&b'/') { 0 } else { stack.iter().map(|x| x.0.len() + 1).sum() };
            let next = [t.as_slice(), tail].concat();
            // Without and with the redundant parts of the path.
            let min = prefix + norm_len(&next);
            let max = prefix + (t.first() != Some(&b'/')) as usize + next.len();
            if min > 4096 {
                ret!(Err(ErrK::PathTooLong));
            }
            if max > 4096 {
                res.any.push(Err(ErrK::PathTooLong));
            }
            if t.first() == Some(&b'/') {
                stack.clear();
            }
            rest = next;
            i = 0;
            continue;
        }
        stack.push((comp, child));
        i = e;
        if last && !tail.is_empty() && !cn.is_dir() {
            ret!(Err(ErrK::NotADirectory));
        }
    }
    let ino = cur(&stack);
    let mut p: Vec<u8> = Vec::new();
    for (n, _) in &stack {
        p.push(b'/');
        p.extend_from_slice(n);
    }
    if p.is_empty() {
        p.push(b'/');
    }
    res.any.push(Ok((ino, p)));
    res
}

/// Cache of rendered contents' digests.
#[derive(Default)]
pub struct Digests(pub BTreeMap<u32, (u64, bool)>);

impl Digests {
    fn get(&mut self, n: &MInode) -> (u64, bool) {
        *self.0.entry(n.ino).or_insert_with(|| {
            let Kind::Reg(c) = &n.kind else { return (0, false) };
            let v = c.all(n.size);
            (digest(&v), std::str::from_utf8(&v).is_ok())
        })
    }
}

/// The acceptable results of an operation. Empty: anything.
pub fn model_exec(m: &Model, op: &Op, dg: &mut Digests) -> Vec<Out> {
    let follow = !matches!(op.k, OpK::ReadLink | OpK::SymMeta);
    let r = resolve(m, &op.path, follow);
    let mut out = Vec::new();
    for x in &r.any {
        let (ino, canon) = match x {
            Err(ErrK::NotFound) if op.k == OpK::Exists => {
                out.push(Out::Bool(false));
                continue;
            }
            Err(e) => {
                out.push(Out::Err(e.clone()));
                continue;
            }
            Ok(x) => x,
        };
        let n = m.get(*ino);
        let file = |want_contents: bool| -> Option<Out> {
            if n.is_dir() {
                Some(Out::Err(ErrK::IsADirectory))
            } else if !n.is_reg() {
                Some(Out::Err(ErrK::IsASpecialFile))
            } else if n.encrypted() && want_contents {
                Some(Out::Err(ErrK::Encrypted))
            } else {
                None
            }
        };
        let mut alt: Vec<Out> = Vec::new();
        let main = match &op.k {
            OpK::Canon => Out::Path(canon.clone()),
            OpK::Exists => Out::Bool(true),
            OpK::Meta | OpK::SymMeta => Out::Meta(model_metav(n)),
            OpK::ReadLink => {
                if !n.is_link() {
                    Out::Err(ErrK::NotASymlink)
                } else if n.encrypted() {
                    Out::Err(ErrK::Encrypted)
                } else {
                    let Kind::Link(t) = &n.kind else { unreachable!() };
                    Out::Path(t.clone())
                }
            }
            OpK::Read | OpK::Open(_) => match file(true) {
                Some(o) => o,
                None => Out::Bytes { len: n.size, dig: dg.get(n).0 },
            },
            OpK::ReadStr => match file(true) {
                Some(o) => o,
                None => {
                    let (d, u) = dg.get(n);
                    if u {
                        Out::Bytes { len: n.size, dig: d }
                    } else {
                        Out::Err(ErrK::NotUtf8)
                    }
                }
            },
            OpK::OpenMeta => match file(false) {
                Some(o) => o,
                None => {
                    if n.encrypted() {
                        // Opening may already refuse.
                        alt.push(Out::Err(ErrK::Encrypted));
                    }
                    Out::Meta(model_metav(n))
                }
            },
            OpK::OpenAt(pos, len) => match file(true) {
                Some(o) => {
                    if n.encrypted() && *pos >= n.size {
                        alt.push(Out::Bytes { len: 0, dig: digest(&[]) });
                    }
                    o
                }
                None => {
                    let Kind::Reg(c) = &n.kind else { unreachable!() };
                    let k = (*len as u64).min(n.size.saturating_sub(*pos));
                    let mut v = vec![0; k as usize];
                    c.read(*pos, &mut v);
                    Out::Bytes { len: k, dig: digest(&v) }
                }
            },
            OpK::List | OpK::ListMeta => {
                if !n.is_dir() {
                    Out::Err(ErrK::NotADirectory)
                } else if n.encrypted() {
                    Out::Err(ErrK::Encrypted)
                } else {
                    let mut v: Vec<Ent> = n
                        .entries()
                        .iter()
                        .map(|e| {
                            let path = join(&op.path, &e.name);
                            let meta = (op.k == OpK::ListMeta).then(|| {
                                // lstat of the entry's path.
                                let r = resolve(m, &path, false);
                                match r.any.last() {
                                    Some(Ok((i, _))) => Ok(model_metav(m.get(*i))),
                                    Some(Err(e)) => Err(e.clone()),
                                    None => Err(ErrK::Other),
                                }
                            });
                            Ent { name: e.name.clone(), ft: Ok(e.ft), path, meta }
                        })
                        .collect();
                    v.sort();
                    Out::List(v)
                }
            }
        };
        out.push(main);
        out.extend(alt);
    }
    out
}

/// Compare; None if acceptable.
pub fn judge(m: &Model, op: &Op, got: &Out, dg: &mut Digests) -> Option<String> {
    let want = model_exec(m, op, dg);
    if want.is_empty() || want.iter().any(|w| same(w, got)) {
        return None;
    }
    Some(format!(
        "{}: got {}, expected {}",
        op.show(),
        diff_hint(&want, got),
        want.iter().map(|w| w.short()).collect::<Vec<_>>().join(" or ")
    ))
}

fn diff_hint(want: &[Out], got: &Out) -> String {
    if let (Some(Out::List(w)), Out::List(g)) = (want.last(), got) {
        let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).take(3).cloned().collect();
        let extra: Vec<_> = g.iter().filter(|x| !w.contains(x)).take(3).cloned().collect();
        return format!("List({}): missing [{}], unexpected [{}]", g.len(), ents(&miss), ents(&extra));
    }
    got.short()
}

fn same(w: &Out, g: &Out) -> bool {
    match (w, g) {
        // An encrypted directory may be refused at the first entry.
        (Out::List(a), Out::List(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| {
                    x.name == y.name
                        && x.ft == y.ft
                        && x.path == y.path
                        && match (&x.meta, &y.meta) {
                            // Long paths: either verdict.
                            (Some(Err(ErrK::Other)), _) => true,
                            (Some(_), Some(Err(ErrK::PathTooLong))) => x.path.len() > 4000,
                            (a, b) => a == b,
                        }
                })
        }
        (a, b) => a == b,
    }
}

pub fn as_path(p: &[u8]) -> Option<Path<'_>> {
    Path::try_from(p).ok()
}

// ------------------------------------------------- comparing across builds

/// Each backend reports a short volume in its own words.
pub fn coarse_err(e: ErrK) -> ErrK {
    match e {
        ErrK::Io(_) => ErrK::Io(None),
        e => e,
    }
}

pub fn coarse(o: &Out) -> Out {
    let fix = |v: &Vec<Ent>| -> Vec<Ent> {
        let mut v = v.clone();
        for e in &mut v {
            if let Some(Err(k)) = &e.meta {
                e.meta = Some(Err(coarse_err(k.clone())));
            }
        }
        v
    };
    match o {
        Out::Err(e) => Out::Err(coarse_err(e.clone())),
        Out::List(v) => Out::List(fix(v)),
        Out::ErrAfter(v, e) => Out::ErrAfter(fix(v), coarse_err(e.clone())),
        o => o.clone(),
    }
}

pub fn format_op(op: &Op) -> String {
    let (k, a, b) = match &op.k {
        OpK::Canon => ("Canon", 0, 0),
        OpK::Read => ("Read", 0, 0),
        OpK::ReadStr => ("ReadStr", 0, 0),
        OpK::ReadLink => ("ReadLink", 0, 0),
        OpK::List => ("List", 0, 0),
        OpK::ListMeta => ("ListMeta", 0, 0),
        OpK::Exists => ("Exists", 0, 0),
        OpK::Meta => ("Meta", 0, 0),
        OpK::SymMeta => ("SymMeta", 0, 0),
        OpK::Open(s) => ("Open", *s, 0),
        OpK::OpenMeta => ("OpenMeta", 0, 0),
        OpK::OpenAt(p, n) => ("OpenAt", *p, *n),
    };
    let hex: String = op.path.iter().map(|b| format!("{:02x}", b)).collect();
    format!("{} {} {} {}", k, a, b, hex)
}

pub fn parse_op(l: &str) -> Option<Op> {
    let mut w = l.split(' ');
    let k = w.next()?;
    let a: u64 = w.next()?.parse().ok()?;
    let b: u32 = w.next()?.parse().ok()?;
    let hex = w.next()?;
    let path = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
    let k = match k {
        "Canon" => OpK::Canon,
        "Read" => OpK::Read,
        "ReadStr" => OpK::ReadStr,
        "ReadLink" => OpK::ReadLink,
        "List" => OpK::List,
        "ListMeta" => OpK::ListMeta,
        "Exists" => OpK::Exists,
        "Meta" => OpK::Meta,
        "SymMeta" => OpK::SymMeta,
        "Open" => OpK::Open(a),
        "OpenMeta" => OpK::OpenMeta,
        "OpenAt" => OpK::OpenAt(a, b),
        _ => return None,
    };
    Some(Op { k, path })
}
