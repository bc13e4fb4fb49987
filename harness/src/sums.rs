//! CRC32C and directory hashes, written independently of the library from the
//! on-disk format description (fs/ext4/hash.c, lib/crc32c).

const fn table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0x82f6_3b78 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}
static T: [u32; 256] = table();

/// Raw (no final inversion) CRC32C, the kernel's `crc32c(seed, data)`.
pub fn crc32c(mut c: u32, data: &[u8]) -> u32 {
    for b in data {
        c = T[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    c
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Alg {
    HalfMd4,
    Tea,
}

impl Alg {
    pub fn disk(self) -> u8 {
        match self {
            Alg::HalfMd4 => 1,
            Alg::Tea => 2,
        }
    }
}

pub fn str2buf(msg: &[u8], unsigned: bool, num: usize) -> Vec<u32> {
    let len = msg.len() as u32;
    let mut pad = len | (len << 8);
    pad |= pad << 16;
    let mut out = Vec::with_capacity(num);
    let mut val = pad;
    let n = msg.len().min(num * 4);
    for (i, b) in msg[..n].iter().enumerate() {
        let c = if unsigned { *b as u32 } else { *b as i8 as i32 as u32 };
        val = c.wrapping_add(val << 8);
        if i % 4 == 3 {
            out.push(val);
            val = pad;
        }
    }
    if out.len() < num {
        out.push(val);
    }
    while out.len() < num {
        out.push(pad);
    }
    out
}

pub fn half_md4(buf: &mut [u32; 4], inp: &[u32]) {
    let (mut a, mut b, mut c, mut d) = (buf[0], buf[1], buf[2], buf[3]);
    fn f(x: u32, y: u32, z: u32) -> u32 {
        z ^ (x & (y ^ z))
    }
    fn g(x: u32, y: u32, z: u32) -> u32 {
        (x & y).wrapping_add((x ^ y) & z)
    }
    fn h(x: u32, y: u32, z: u32) -> u32 {
        x ^ y ^ z
    }
    macro_rules! round {
        ($f:ident, $a:ident, $b:ident, $c:ident, $d:ident, $x:expr, $s:expr) => {
            $a = $a
                .wrapping_add($f($b, $c, $d))
                .wrapping_add($x)
                .rotate_left($s);
        };
    }
    let k2 = 0o13240474631u32;
    let k3 = 0o15666365641u32;
    round!(f, a, b, c, d, inp[0], 3);
    round!(f, d, a, b, c, inp[1], 7);
    round!(f, c, d, a, b, inp[2], 11);
    round!(f, b, c, d, a, inp[3], 19);
    round!(f, a, b, c, d, inp[4], 3);
    round!(f, d, a, b, c, inp[5], 7);
    round!(f, c, d, a, b, inp[6], 11);
    round!(f, b, c, d, a, inp[7], 19);

    round!(g, a, b, c, d, inp[1].wrapping_add(k2), 3);
    round!(g, d, a, b, c, inp[3].wrapping_add(k2), 5);
    round!(g, c, d, a, b, inp[5].wrapping_add(k2), 9);
    round!(g, b, c, d, a, inp[7].wrapping_add(k2), 13);
    round!(g, a, b, c, d, inp[0].wrapping_add(k2), 3);
    round!(g, d, a, b, c, inp[2].wrapping_add(k2), 5);
    round!(g, c, d, a, b, inp[4].wrapping_add(k2), 9);
    round!(g, b, c, d, a, inp[6].wrapping_add(k2), 13);

    round!(h, a, b, c, d, inp[3].wrapping_add(k3), 3);
    round!(h, d, a, b, c, inp[7].wrapping_add(k3), 9);
    round!(h, c, d, a, b, inp[2].wrapping_add(k3), 11);
    round!(h, b, c, d, a, inp[6].wrapping_add(k3), 15);
    round!(h, a, b, c, d, inp[1].wrapping_add(k3), 3);
    round!(h, d, a, b, c, inp[5].wrapping_add(k3), 9);
    round!(h, c, d, a, b, inp[0].wrapping_add(k3), 11);
    round!(h, b, c, d, a, inp[4].wrapping_add(k3), 15);
    buf[0] = buf[0].wrapping_add(a);
    buf[1] = buf[1].wrapping_add(b);
    buf[2] = buf[2].wrapping_add(c);
    buf[3] = buf[3].wrapping_add(d);
}

pub fn tea(buf: &mut [u32; 4], inp: &[u32]) {
    let mut sum = 0u32;
    let (mut b0, mut b1) = (buf[0], buf[1]);
    for _ in 0..16 {
        sum = sum.wrapping_add(0x9E37_79B9);
        b0 = b0.wrapping_add(
            (b1 << 4).wrapping_add(inp[0])
                ^ b1.wrapping_add(sum)
                ^ (b1 >> 5).wrapping_add(inp[1]),
        );
        b1 = b1.wrapping_add(
            (b0 << 4).wrapping_add(inp[2])
                ^ b0.wrapping_add(sum)
                ^ (b0 >> 5).wrapping_add(inp[3]),
        );
    }
    buf[0] = buf[0].wrapping_add(b0);
    buf[1] = buf[1].wrapping_add(b1);
}

/// Directory hash as stored in index blocks.
pub fn dirhash(name: &[u8], alg: Alg, unsigned: bool, seed: &[u32; 4]) -> u32 {
    let mut buf = if *seed == [0; 4] {
        [0x6745_2301, 0xefcd_ab89, 0x98ba_dcfe, 0x1032_5476]
    } else {
        *seed
    };
    let hash = match alg {
        Alg::HalfMd4 => {
            let mut p = name;
            while !p.is_empty() {
                let i = str2buf(p, unsigned, 8);
                half_md4(&mut buf, &i);
                p = &p[p.len().min(32)..];
            }
            buf[1]
        }
        Alg::Tea => {
            let mut p = name;
            while !p.is_empty() {
                let i = str2buf(p, unsigned, 4);
                tea(&mut buf, &i);
                p = &p[p.len().min(16)..];
            }
            buf[0]
        }
    };
    let h = hash & !1;
    if h == 0xffff_fffe {
        0xffff_fffc
    } else {
        h
    }
}
