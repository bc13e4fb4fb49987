// view IMAGE OPS: run operations on an image and print their results.
use ext4_view::{Ext4, Ext4Error, Ext4Read, Path};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::error::Error;
use std::io::{Read, Seek, SeekFrom};
use std::rc::Rc;

type B = Result<(), Box<dyn Error + Send + Sync + 'static>>;

#[derive(Clone)]
struct Img {
    len: u64,
    bs: u64,
    blocks: Rc<BTreeMap<u64, Vec<u8>>>,
    // Fail `fail` reads after `ok` more.
    ok: Rc<Cell<u64>>,
    fail: Rc<Cell<u64>>,
    outside: Rc<Cell<bool>>,
}

impl Img {
    fn load(p: &str) -> Img {
        let v = std::fs::read(p).unwrap();
        let (len, bs, blocks);
        if v.starts_with(b"CHUNKS1\n") {
            let q = |o: usize| u64::from_le_bytes(v[o..o + 8].try_into().unwrap());
            len = q(8);
            bs = q(16);
            let mut m = BTreeMap::new();
            let mut o = 24;
            while o < v.len() {
                m.insert(q(o), v[o + 8..o + 8 + bs as usize].to_vec());
                o += 8 + bs as usize;
            }
            blocks = m;
        } else {
            len = v.len() as u64;
            bs = 1024;
            blocks = v.chunks(1024).enumerate().map(|(i, c)| { let mut c = c.to_vec(); c.resize(1024, 0); (i as u64, c) }).collect();
        }
        Img { len, bs, blocks: Rc::new(blocks), ok: Rc::new(Cell::new(u64::MAX)), fail: Rc::new(Cell::new(0)), outside: Rc::new(Cell::new(false)) }
    }
}

impl Ext4Read for Img {
    fn read(&mut self, off: u64, dst: &mut [u8]) -> B {
        if self.ok.get() > 0 {
            self.ok.set(self.ok.get() - 1);
        } else if self.fail.get() > 0 {
            self.fail.set(self.fail.get() - 1);
            return Err("injected".into());
        }
        if off.checked_add(dst.len() as u64).map(|e| e > self.len).unwrap_or(true) {
            self.outside.set(true);
            return Err("outside".into());
        }
        let mut pos = off;
        let mut i = 0;
        while i < dst.len() {
            let o = (pos % self.bs) as usize;
            let n = (self.bs as usize - o).min(dst.len() - i);
            match self.blocks.get(&(pos / self.bs)) {
                Some(b) => dst[i..i + n].copy_from_slice(&b[o..o + n]),
                None => dst[i..i + n].fill(0),
            }
            i += n;
            pos += n as u64;
        }
        Ok(())
    }
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
fn err(e: &Ext4Error) -> String {
    match e {
        Ext4Error::Io(e) if ["injected", "outside"].contains(&&e.to_string()[..]) => format!("Io({})", e),
        Ext4Error::Io(_) => "Io".into(),
        Ext4Error::Corrupt(_) => "Corrupt".into(),
        Ext4Error::Incompatible(_) => "Incompatible".into(),
        e => format!("{:?}", e),
    }
}
fn bytes(b: &[u8]) -> String {
    if b.len() <= 40 { format!("{} {:?}", b.len(), String::from_utf8_lossy(b)) } else { format!("{} {:016x}", b.len(), fnv(b)) }
}
fn meta(m: &ext4_view::Metadata) -> String {
    format!("{:?} {:o} {} {} {}", m.file_type(), m.mode(), m.len(), m.uid(), m.gid())
}
fn show<T>(r: Result<T, Ext4Error>, f: impl Fn(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => format!("error {}", err(&e)),
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn list(fs: &Ext4, p: Path) -> String {
    let mut v = Vec::new();
    let mut end = String::new();
    match fs.read_dir(p) {
        Err(e) => return format!("error {}", err(&e)),
        Ok(it) => {
            for e in it {
                match e {
                    Ok(e) => v.push(format!(
                        "{:?} {:?} {:?} {}",
                        e.file_name(),
                        e.file_type().map_err(|e| err(&e)),
                        e.path(),
                        show(e.metadata(), |m| meta(&m))
                    )),
                    Err(e) => end.push_str(&format!(" then error {}", err(&e))),
                }
                if v.len() > 100_000 { end.push_str(" endless"); break; }
            }
        }
    }
    v.sort();
    format!("{}{}\n    {}", v.len(), end, v.join("\n    "))
}

fn file(fs: &Ext4, p: Path, script: &str) -> String {
    let mut f = match fs.open(p) { Ok(f) => f, Err(e) => return format!("error {}", err(&e)) };
    let mut out = String::new();
    for s in script.split(',').filter(|s| !s.is_empty()) {
        let (k, n) = s.split_at(1);
        match k {
            "r" => {
                // Until n bytes, the end or an error.
                let n: usize = n.parse().unwrap();
                let mut v = vec![0; n];
                let mut got = 0;
                let mut e = String::new();
                while got < n {
                    match f.read_bytes(&mut v[got..]) {
                        Ok(0) => break,
                        Ok(k) => got += k,
                        Err(x) => { e = format!(" error {}", err(&x)); break; }
                    }
                }
                out.push_str(&format!("\n    {} = {}{} @{}", s, bytes(&v[..got]), e, f.position()));
            }
            _ => {
                let to = match k {
                    "s" => SeekFrom::Start(n.parse().unwrap()),
                    "e" => SeekFrom::End(n.parse().unwrap()),
                    _ => SeekFrom::Current(n.parse().unwrap()),
                };
                let r = f.seek(to).map_err(|e| e.kind());
                out.push_str(&format!("\n    {} = {:?} @{}", s, r, f.position()));
            }
        }
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let img = Img::load(&a[1]);
    let ops = std::fs::read_to_string(&a[2]).unwrap();
    let mut fs: Option<Ext4> = None;
    for l in ops.lines() {
        let mut w = l.split(' ');
        let k = w.next().unwrap();
        if l.is_empty() || k == "#" { continue; }
        if k == "fault" {
            img.ok.set(w.next().unwrap().parse().unwrap());
            img.fail.set(w.next().unwrap().parse().unwrap());
            println!("{}", l);
            continue;
        }
        if fs.is_none() || k == "load" {
            let back: Box<dyn Ext4Read> = match if k == "load" { w.next() } else { None } {
                None => Box::new(img.clone()),
                Some(b) => {
                    let n: u64 = w.next().unwrap().parse().unwrap();
                    let mut v = vec![0; n as usize];
                    Img::clone(&img).read(0, &mut v).unwrap();
                    if b == "vec" {
                        Box::new(v)
                    } else {
                        let p = format!("{}.{}", a[1], std::process::id());
                        std::fs::write(&p, v).unwrap();
                        let f = std::fs::File::open(&p).unwrap();
                        std::fs::remove_file(&p).unwrap();
                        Box::new(f)
                    }
                }
            };
            match Ext4::load(back) {
                Ok(x) => {
                    println!("load = {:?} {:?}", x.label().as_bytes(), x.uuid());
                    fs = Some(x);
                }
                Err(e) => {
                    println!("load = error {}", err(&e));
                    fs = None;
                    if k != "load" { break; }
                }
            }
        }
        if k == "load" { continue; }
        let Some(fs) = &fs else { continue };
        let path = unhex(w.next().unwrap_or(""));
        let r = match Path::try_from(&path[..]) {
            Err(_) => "not a path".to_string(),
            Ok(p) => match k {
                "R" => show(fs.read(p), |b| bytes(&b)),
                "S" => show(fs.read_to_string(p), |b| bytes(b.as_bytes())),
                "M" => show(fs.metadata(p), |m| meta(&m)),
                "L" => show(fs.symlink_metadata(p), |m| meta(&m)),
                "K" => show(fs.read_link(p), |t| format!("{:?}", t)),
                "C" => show(fs.canonicalize(p), |t| format!("{:?}", t)),
                "E" => show(fs.exists(p), |t| format!("{}", t)),
                "D" => list(fs, p),
                "O" => show(fs.open(p), |mut f| {
                    let mut v = Vec::new();
                    let r = f.read_to_end(&mut v);
                    format!("{:?} {}", r.map_err(|e| e.kind()), bytes(&v))
                }),
                "F" => file(fs, p, w.next().unwrap_or("")),
                k => panic!("{}", k),
            },
        };
        println!("{} {:?} = {}", k, String::from_utf8_lossy(&path), r);
        if img.outside.replace(false) { println!("    a read outside the volume"); }
    }
}
