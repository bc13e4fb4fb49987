//! Sparse block device. Blocks are stored bytes or lazily rendered file data.

use crate::rng::mix;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone)]
pub enum Block {
    Bytes(Arc<[u8]>),
    /// Pattern data: contents derived from (key, logical block).
    Pat(u64, u32),
}

#[derive(Clone)]
pub struct Disk {
    pub bs: usize,
    /// Length of the device in bytes.
    pub len: u64,
    pub blocks: HashMap<u64, Block>,
}

/// The contents of logical block `lblk` of the pattern `key`.
pub fn pattern(key: u64, lblk: u32, buf: &mut [u8]) {
    let mut s = mix(key ^ ((lblk as u64) << 20) ^ 0x5157);
    for c in buf.chunks_mut(8) {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        // Never zero in any byte, so that holes can't be confused with data.
        let x = (s ^ (s >> 29)) | 0x0101_0101_0101_0101;
        let b = x.to_le_bytes();
        c.copy_from_slice(&b[..c.len()]);
    }
}

impl Disk {
    pub fn new(bs: usize, nblocks: u64) -> Self {
        Disk { bs, len: nblocks * bs as u64, blocks: HashMap::new() }
    }
    pub fn put(&mut self, blk: u64, data: Vec<u8>) {
        debug_assert_eq!(data.len(), self.bs);
        self.blocks.insert(blk, Block::Bytes(data.into()));
    }
    pub fn put_pat(&mut self, blk: u64, key: u64, lblk: u32) {
        self.blocks.insert(blk, Block::Pat(key, lblk));
    }
    pub fn get(&self, blk: u64) -> Vec<u8> {
        match self.blocks.get(&blk) {
            None => vec![0; self.bs],
            Some(Block::Bytes(b)) => b.to_vec(),
            Some(Block::Pat(k, l)) => {
                let mut v = vec![0; self.bs];
                pattern(*k, *l, &mut v);
                v
            }
        }
    }
    /// Read; false if out of range.
    pub fn read(&self, off: u64, dst: &mut [u8]) -> bool {
        match off.checked_add(dst.len() as u64) {
            Some(end) if end <= self.len => {}
            _ => return false,
        }
        let bs = self.bs as u64;
        let mut pos = off;
        let mut i = 0;
        while i < dst.len() {
            let blk = pos / bs;
            let o = (pos % bs) as usize;
            let n = (self.bs - o).min(dst.len() - i);
            let out = &mut dst[i..i + n];
            match self.blocks.get(&blk) {
                None => out.fill(0),
                Some(Block::Bytes(b)) => out.copy_from_slice(&b[o..o + n]),
                Some(Block::Pat(k, l)) => {
                    if o == 0 {
                        pattern(*k, *l, out);
                    } else {
                        let mut v = vec![0; o + n];
                        pattern(*k, *l, &mut v);
                        out.copy_from_slice(&v[o..o + n]);
                    }
                }
            }
            i += n;
            pos += n as u64;
        }
        true
    }
    /// Overwrite bytes.
    pub fn write(&mut self, off: u64, src: &[u8]) {
        let bs = self.bs as u64;
        let mut pos = off;
        let mut i = 0;
        while i < src.len() {
            let blk = pos / bs;
            let o = (pos % bs) as usize;
            let n = (self.bs - o).min(src.len() - i);
            let mut b = self.get(blk);
            b[o..o + n].copy_from_slice(&src[i..i + n]);
            self.put(blk, b);
            i += n;
            pos += n as u64;
        }
    }
    pub fn to_vec(&self) -> Vec<u8> {
        let mut v = vec![0; self.len as usize];
        assert!(self.read(0, &mut v));
        v
    }
    pub fn from_vec(bs: usize, v: &[u8]) -> Self {
        let mut d = Disk { bs, len: v.len() as u64, blocks: HashMap::new() };
        for (i, c) in v.chunks(bs).enumerate() {
            if c.iter().any(|b| *b != 0) {
                let mut b = c.to_vec();
                b.resize(bs, 0);
                d.put(i as u64, b);
            }
        }
        d
    }
    pub fn digest(&self) -> u64 {
        let mut keys: Vec<_> = self.blocks.keys().copied().collect();
        keys.sort_unstable();
        let mut h = mix(self.len);
        for k in keys {
            h = mix(h ^ k);
            match &self.blocks[&k] {
                Block::Bytes(b) => h = mix(h ^ crate::rng::fnv(b)),
                Block::Pat(a, l) => h = mix(h ^ a ^ *l as u64),
            }
        }
        h
    }
}
