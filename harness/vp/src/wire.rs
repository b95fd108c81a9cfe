//! Independent model of Aldrin values and of their wire format: normal form, generator, encoder
//! and strict reference decoder. Written from the format description, shares no code with /repo.
use crate::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    Str(Vec<u8>),
    Uuid([u8; 16]),
}

/// Normal form of a value: floats as bits, maps and sets ordered.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum N {
    None,
    Some(Box<N>),
    Bool(bool),
    U8(u8),
    I8(i8),
    U16(u16),
    I16(i16),
    U32(u32),
    I32(i32),
    U64(u64),
    I64(i64),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Uuid([u8; 16]),
    Oid([u8; 32]),
    Sid([u8; 64]),
    Vec(Vec<N>),
    Bytes(Vec<u8>),
    Map(u8, BTreeMap<K, N>),
    Set(u8, BTreeSet<K>),
    Struct(BTreeMap<u32, N>),
    Enum(u32, Box<N>),
    Sender([u8; 16]),
    Receiver([u8; 16]),
}

pub const MAX_DEPTH: usize = 32;

impl N {
    pub fn depth(&self) -> usize {
        1 + match self {
            N::Some(x) | N::Enum(_, x) => x.depth(),
            N::Vec(v) => v.iter().map(N::depth).max().unwrap_or(0),
            N::Map(_, m) => m.values().map(N::depth).max().unwrap_or(0),
            N::Struct(m) => m.values().map(N::depth).max().unwrap_or(0),
            _ => 0,
        }
    }

    pub fn size(&self) -> usize {
        1 + match self {
            N::Some(x) | N::Enum(_, x) => x.size(),
            N::Vec(v) => v.iter().map(N::size).sum(),
            N::Map(_, m) => m.values().map(N::size).sum(),
            N::Set(_, s) => s.len(),
            N::Struct(m) => m.values().map(N::size).sum(),
            _ => 0,
        }
    }

    pub fn has_container(&self) -> bool {
        match self {
            N::Some(x) | N::Enum(_, x) => x.has_container(),
            N::Vec(_) | N::Bytes(_) | N::Map(..) | N::Set(..) | N::Struct(_) => true,
            _ => false,
        }
    }

    /// Index 0..43 of the variant, counting every map/set kind.
    pub fn variant(&self) -> usize {
        match self {
            N::None => 0,
            N::Some(_) => 1,
            N::Bool(_) => 2,
            N::U8(_) => 3,
            N::I8(_) => 4,
            N::U16(_) => 5,
            N::I16(_) => 6,
            N::U32(_) => 7,
            N::I32(_) => 8,
            N::U64(_) => 9,
            N::I64(_) => 10,
            N::F32(_) => 11,
            N::F64(_) => 12,
            N::Str(_) => 13,
            N::Uuid(_) => 14,
            N::Oid(_) => 15,
            N::Sid(_) => 16,
            N::Vec(_) => 17,
            N::Bytes(_) => 18,
            N::Map(k, _) => 19 + *k as usize,
            N::Set(k, _) => 29 + *k as usize,
            N::Struct(_) => 39,
            N::Enum(..) => 40,
            N::Sender(_) => 41,
            N::Receiver(_) => 42,
        }
    }
}

// ---------------------------------------------------------------- generation

pub fn gen_uuid(s: &mut Src) -> [u8; 16] {
    let mut u = [0u8; 16];
    match s.us(3) {
        0 => u[15] = s.below(4) as u8,
        1 => u = [0xff; 16],
        _ => u.copy_from_slice(&s.bulk(16)),
    }
    u
}

pub fn gen_string(s: &mut Src, max: usize) -> Vec<u8> {
    let n = s.small(max);
    let mut st = String::new();
    for _ in 0..n {
        let c = match s.us(6) {
            0..=2 => (b'a' + s.below(26) as u8) as char,
            3 => char::from_u32(s.below(0x80) as u32).unwrap(),
            4 => *s.pick(&['\0', 'ß', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}']),
            _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('x'),
        };
        st.push(c);
    }
    st.into_bytes()
}

pub fn gen_key(s: &mut Src, kk: u8) -> K {
    match kk {
        0 => K::U8(s.int(8) as u8),
        1 => K::I8(s.int(8) as u8 as i8),
        2 => K::U16(s.int(16) as u16),
        3 => K::I16(sint(s, 16) as i16),
        4 => K::U32(s.int(32) as u32),
        5 => K::I32(sint(s, 32) as i32),
        6 => K::U64(s.int(64)),
        7 => K::I64(sint(s, 64)),
        8 => K::Str(gen_string(s, 20)),
        _ => K::Uuid(gen_uuid(s)),
    }
}

/// Signed values around the zigzag/varint boundaries.
pub fn sint(s: &mut Src, bits: u32) -> i64 {
    let raw = s.int(bits);
    if s.bool() {
        // zigzag-decode, so that boundaries of the encoded form are hit
        ((raw >> 1) as i64) ^ -((raw & 1) as i64)
    } else {
        let sh = 64 - bits;
        ((raw << sh) as i64) >> sh
    }
}

pub fn gen_f32(s: &mut Src) -> u32 {
    match s.us(4) {
        0 => *s.pick(&[0u32, 0x8000_0000, 0x3f80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff, 1, 0x007f_ffff]),
        1 => 0x7f80_0000 | (s.u64() as u32 & 0x807f_ffff),
        _ => s.u64() as u32,
    }
}

pub fn gen_f64(s: &mut Src) -> u64 {
    match s.us(4) {
        0 => *s.pick(&[0u64, 1 << 63, 0x3ff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, (0x7ff0 << 48) | 1, u64::MAX, 1]),
        1 => (0x7ff0 << 48) | (s.u64() & 0x800f_ffff_ffff_ffff),
        _ => s.u64(),
    }
}

pub fn gen_leaf(s: &mut Src) -> N {
    match s.us(20) {
        0 => N::None,
        1 => N::Bool(s.bool()),
        2 => N::U8(s.int(8) as u8),
        3 => N::I8(s.int(8) as u8 as i8),
        4 => N::U16(s.int(16) as u16),
        5 => N::I16(sint(s, 16) as i16),
        6 => N::U32(s.int(32) as u32),
        7 => N::I32(sint(s, 32) as i32),
        8 => N::U64(s.int(64)),
        9 => N::I64(sint(s, 64)),
        10 => N::F32(gen_f32(s)),
        11 => N::F64(gen_f64(s)),
        12 => N::Str(gen_string(s, 300)),
        13 => N::Uuid(gen_uuid(s)),
        14 => {
            let mut o = [0; 32];
            o[..16].copy_from_slice(&gen_uuid(s));
            o[16..].copy_from_slice(&gen_uuid(s));
            N::Oid(o)
        }
        15 => {
            let mut o = [0; 64];
            for i in 0..4 {
                o[16 * i..16 * i + 16].copy_from_slice(&gen_uuid(s));
            }
            N::Sid(o)
        }
        16 => N::Bytes({
            let n = if s.chance(1, 60) { s.range(0, 70_000) } else { s.small(600) };
            s.bulk(n)
        }),
        17 => N::Sender(gen_uuid(s)),
        18 => N::Receiver(gen_uuid(s)),
        _ => {
            let kk = s.below(10) as u8;
            let n = if s.chance(1, 40) { s.range(0, 700) } else { s.small(40) };
            let set = (0..n).map(|_| gen_key(s, kk)).collect();
            N::Set(kk, set)
        }
    }
}

/// A value of at most about `budget` nodes and depth at most `depth`.
pub fn gen_value(s: &mut Src, depth: usize, budget: &mut isize) -> N {
    *budget -= 1;
    if depth <= 1 || *budget <= 0 || s.us(5) < 2 {
        return gen_leaf(s);
    }
    match s.us(6) {
        0 => N::Some(Box::new(gen_value(s, depth - 1, budget))),
        1 => N::Enum(s.int(32) as u32, Box::new(gen_value(s, depth - 1, budget))),
        2 => {
            if s.chance(1, 30) {
                // a long vector of one repeated element
                let n = s.range(200, 900);
                let e = gen_leaf(s);
                return N::Vec(if e.size() < 4 { vec![e; n] } else { vec![N::None; n] });
            }
            let n = s.small(12);
            N::Vec((0..n).map(|_| gen_value(s, depth - 1, budget)).collect())
        }
        3 | 4 => {
            let kk = s.below(10) as u8;
            let n = s.small(10);
            N::Map(kk, (0..n).map(|_| (gen_key(s, kk), gen_value(s, depth - 1, budget))).collect())
        }
        _ => {
            let n = s.small(10);
            N::Struct((0..n).map(|_| (s.int(32) as u32, gen_value(s, depth - 1, budget))).collect())
        }
    }
}

/// Wraps `inner` in one nesting step of a random kind (14 kinds), with optional shallow siblings.
pub fn wrap(s: &mut Src, inner: N) -> N {
    let sib = s.us(4) == 0;
    match s.us(14) {
        0 => N::Some(Box::new(inner)),
        1 => {
            let mut v = vec![inner];
            if sib {
                v.push(gen_leaf(s));
            }
            if sib && s.bool() {
                v.insert(0, gen_leaf(s));
            }
            N::Vec(v)
        }
        2 => N::Enum(s.int(32) as u32, Box::new(inner)),
        3 => {
            let mut m = BTreeMap::new();
            if sib {
                m.insert(s.int(32) as u32, gen_leaf(s));
            }
            m.insert(s.int(32) as u32, inner);
            N::Struct(m)
        }
        k => {
            let kk = (k - 4) as u8;
            let mut m = BTreeMap::new();
            if sib {
                m.insert(gen_key(s, kk), gen_leaf(s));
            }
            m.insert(gen_key(s, kk), inner);
            N::Map(kk, m)
        }
    }
}

/// A value with a chain of exactly `depth` levels.
pub fn gen_chain(s: &mut Src, depth: usize) -> N {
    let mut v = gen_leaf(s);
    if depth == 0 {
        return v;
    }
    let same = s.chance(1, 3);
    if same {
        // one single kind all the way
        let k = s.us(14);
        for _ in 1..depth {
            v = match k {
                0 => N::Some(Box::new(v)),
                1 => N::Vec(vec![v]),
                2 => N::Enum(s.int(32) as u32, Box::new(v)),
                3 => N::Struct([(s.int(32) as u32, v)].into()),
                k => N::Map((k - 4) as u8, [(gen_key(s, (k - 4) as u8), v)].into()),
            };
        }
    } else {
        for _ in 1..depth {
            v = wrap(s, v);
        }
    }
    v
}

// ---------------------------------------------------------------- encoding

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Epoch {
    V1,
    V2,
    Mixed,
}

pub struct Enc<'a> {
    pub out: Vec<u8>,
    pub epoch: Epoch,
    /// Allow non-canonical varints, arbitrary true bytes, odd chunking and duplicate keys.
    pub sloppy: bool,
    /// With `sloppy`: whether there may be duplicate keys.
    pub dups: bool,
    pub src: &'a mut Src,
}

pub fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

pub fn unzz(v: u64) -> i64 {
    ((v >> 1) as i64) ^ -((v & 1) as i64)
}

/// Canonical varint of an integer type of `n` bytes.
pub fn varint(out: &mut Vec<u8>, v: u64, n: usize) {
    let thr = 255 - n as u64;
    if v <= thr {
        out.push(v as u8);
    } else {
        let len = (64 - v.leading_zeros() as usize).div_ceil(8);
        out.push((thr as usize + len) as u8);
        out.extend_from_slice(&v.to_le_bytes()[..len]);
    }
}

impl Enc<'_> {
    pub fn varint(&mut self, v: u64, n: usize) {
        if self.sloppy && self.src.chance(1, 10) {
            let min = ((64 - v.leading_zeros() as usize).div_ceil(8)).max(1);
            let len = self.src.range(min, n);
            self.out.push((255 - n + len) as u8);
            self.out.extend_from_slice(&v.to_le_bytes()[..len]);
        } else {
            varint(&mut self.out, v, n);
        }
    }

    fn v2(&mut self) -> bool {
        match self.epoch {
            Epoch::V1 => false,
            Epoch::V2 => true,
            Epoch::Mixed => self.src.bool(),
        }
    }

    pub fn key(&mut self, k: &K) {
        match k {
            K::U8(v) => self.out.push(*v),
            K::I8(v) => self.out.push(*v as u8),
            K::U16(v) => self.varint(*v as u64, 2),
            K::I16(v) => self.varint(zz(*v as i64), 2),
            K::U32(v) => self.varint(*v as u64, 4),
            K::I32(v) => self.varint(zz(*v as i64), 4),
            K::U64(v) => self.varint(*v, 8),
            K::I64(v) => self.varint(zz(*v), 8),
            K::Str(v) => {
                self.varint(v.len() as u64, 4);
                self.out.extend_from_slice(v);
            }
            K::Uuid(u) => self.out.extend_from_slice(u),
        }
    }

    /// Emits count or continuation markers around `n` elements.
    fn seq(&mut self, v2: bool, n: usize, mut f: impl FnMut(&mut Self, usize)) {
        if !v2 {
            self.varint(n as u64, 4);
        }
        for i in 0..n {
            if v2 {
                self.out.push(1);
            }
            f(self, i);
        }
        if v2 {
            self.out.push(0);
        }
    }

    pub fn value(&mut self, v: &N) {
        match v {
            N::None => self.out.push(0),
            N::Some(x) => {
                self.out.push(1);
                self.value(x);
            }
            N::Bool(b) => {
                self.out.push(2);
                let raw = match (*b, self.sloppy) {
                    (false, _) => 0,
                    (true, false) => 1,
                    (true, true) => 1 + self.src.below(255) as u8,
                };
                self.out.push(raw);
            }
            N::U8(x) => self.out.extend([3, *x]),
            N::I8(x) => self.out.extend([4, *x as u8]),
            N::U16(x) => {
                self.out.push(5);
                self.varint(*x as u64, 2);
            }
            N::I16(x) => {
                self.out.push(6);
                self.varint(zz(*x as i64), 2);
            }
            N::U32(x) => {
                self.out.push(7);
                self.varint(*x as u64, 4);
            }
            N::I32(x) => {
                self.out.push(8);
                self.varint(zz(*x as i64), 4);
            }
            N::U64(x) => {
                self.out.push(9);
                self.varint(*x, 8);
            }
            N::I64(x) => {
                self.out.push(10);
                self.varint(zz(*x), 8);
            }
            N::F32(x) => {
                self.out.push(11);
                self.out.extend(x.to_le_bytes());
            }
            N::F64(x) => {
                self.out.push(12);
                self.out.extend(x.to_le_bytes());
            }
            N::Str(x) => {
                self.out.push(13);
                self.varint(x.len() as u64, 4);
                self.out.extend_from_slice(x);
            }
            N::Uuid(x) => {
                self.out.push(14);
                self.out.extend(x);
            }
            N::Oid(x) => {
                self.out.push(15);
                self.out.extend(x);
            }
            N::Sid(x) => {
                self.out.push(16);
                self.out.extend(x);
            }
            N::Vec(xs) => {
                let v2 = self.v2();
                self.out.push(if v2 { 43 } else { 17 });
                self.seq(v2, xs.len(), |e, i| e.value(&xs[i]));
            }
            N::Bytes(xs) => {
                if self.v2() {
                    self.out.push(44);
                    let mut rest = &xs[..];
                    while !rest.is_empty() {
                        let n = if self.sloppy && self.src.bool() {
                            self.src.range(1, rest.len())
                        } else {
                            rest.len()
                        };
                        self.varint(n as u64, 4);
                        self.out.extend_from_slice(&rest[..n]);
                        rest = &rest[n..];
                    }
                    self.varint(0, 4);
                } else {
                    self.out.push(18);
                    self.varint(xs.len() as u64, 4);
                    self.out.extend_from_slice(xs);
                }
            }
            N::Map(kk, m) => {
                let v2 = self.v2();
                self.out.push(if v2 { 45 } else { 19 } + kk);
                let mut order: Vec<(&K, Option<&N>)> = m.iter().map(|(k, v)| (k, Some(v))).collect();
                self.disorder(&mut order);
                let order: Vec<_> = order;
                self.seq(v2, order.len(), |e, i| {
                    e.key(order[i].0);
                    match order[i].1 {
                        Some(v) => e.value(v),
                        None => e.out.push(0),
                    }
                });
            }
            N::Set(kk, m) => {
                let v2 = self.v2();
                self.out.push(if v2 { 55 } else { 29 } + kk);
                let mut order: Vec<&K> = m.iter().collect();
                if self.sloppy && order.len() > 1 {
                    if self.src.bool() {
                        order.reverse();
                    }
                    if self.src.chance(1, 4) {
                        order.push(order[0]);
                    }
                }
                self.seq(v2, order.len(), |e, i| e.key(order[i]));
            }
            N::Struct(m) => {
                let v2 = self.v2();
                self.out.push(if v2 { 65 } else { 39 });
                let mut order: Vec<(&u32, Option<&N>)> = m.iter().map(|(k, v)| (k, Some(v))).collect();
                self.disorder(&mut order);
                let order: Vec<_> = order;
                self.seq(v2, order.len(), |e, i| {
                    e.varint(*order[i].0 as u64, 4);
                    match order[i].1 {
                        Some(v) => e.value(v),
                        None => e.out.push(0),
                    }
                });
            }
            N::Enum(id, x) => {
                self.out.push(40);
                self.varint(*id as u64, 4);
                self.value(x);
            }
            N::Sender(x) => {
                self.out.push(41);
                self.out.extend(x);
            }
            N::Receiver(x) => {
                self.out.push(42);
                self.out.extend(x);
            }
        }
    }

    /// Reorders; sometimes puts a duplicate of a key (with a None value) before the real entry,
    /// which decoding must override.
    fn disorder<T: Copy>(&mut self, order: &mut Vec<(T, Option<&N>)>) {
        if self.sloppy && !order.is_empty() {
            if self.src.bool() {
                order.reverse();
            }
            if self.dups && self.src.chance(1, 4) {
                let i = self.src.us(order.len());
                let k = order[i].0;
                order.insert(0, (k, None));
            }
        }
    }
}

pub fn encode(src: &mut Src, v: &N, epoch: Epoch, sloppy: bool) -> Vec<u8> {
    let mut e = Enc { out: Vec::new(), epoch, sloppy, dups: true, src };
    e.value(v);
    e.out
}

/// Any encoding in which every key occurs once.
pub fn encode_once(src: &mut Src, v: &N, epoch: Epoch, sloppy: bool) -> Vec<u8> {
    let mut e = Enc { out: Vec::new(), epoch, sloppy, dups: false, src };
    e.value(v);
    e.out
}

pub fn encode_canonical(v: &N, epoch: Epoch) -> Vec<u8> {
    let mut s = Src::replay(Vec::new());
    encode(&mut s, v, epoch, false)
}

// ---------------------------------------------------------------- reference decoder

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Bad {
    Eoi,
    Kind,
    TooDeep,
    Utf8,
    Marker,
}

pub struct Dec<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub utf8: bool,
    pub max_depth: usize,
    /// Some 1.20-only container encoding was seen.
    pub saw_v2: bool,
    /// Offsets of string contents (for mutation).
    pub strings: Vec<(usize, usize)>,
    /// A repeated map key / struct field / set element was seen.
    pub dups: bool,
    /// (start, end, depth) of every value seen.
    pub spans: Vec<(usize, usize)>,
}

impl<'a> Dec<'a> {
    pub fn new(buf: &'a [u8], utf8: bool) -> Self {
        Self {
            buf,
            pos: 0,
            utf8,
            max_depth: MAX_DEPTH,
            saw_v2: false,
            strings: Vec::new(),
            dups: false,
            spans: Vec::new(),
        }
    }

    fn u8(&mut self) -> Result<u8, Bad> {
        let b = *self.buf.get(self.pos).ok_or(Bad::Eoi)?;
        self.pos += 1;
        Ok(b)
    }

    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.buf.len() - self.pos < n {
            return Err(Bad::Eoi);
        }
        let s = &self.buf[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }

    fn arr<const L: usize>(&mut self) -> Result<[u8; L], Bad> {
        Ok(self.take(L)?.try_into().unwrap())
    }

    pub fn varint(&mut self, n: usize) -> Result<u64, Bad> {
        let first = self.u8()? as usize;
        if first > 255 - n {
            let len = first + n - 255;
            let mut b = [0u8; 8];
            b[..len].copy_from_slice(self.take(len)?);
            Ok(u64::from_le_bytes(b))
        } else {
            Ok(first as u64)
        }
    }

    fn str(&mut self) -> Result<Vec<u8>, Bad> {
        let n = self.varint(4)? as usize;
        let start = self.pos;
        let s = self.take(n)?;
        if self.utf8 && std::str::from_utf8(s).is_err() {
            return Err(Bad::Utf8);
        }
        self.strings.push((start, n));
        Ok(s.to_vec())
    }

    fn key(&mut self, kk: u8) -> Result<K, Bad> {
        Ok(match kk {
            0 => K::U8(self.u8()?),
            1 => K::I8(self.u8()? as i8),
            2 => K::U16(self.varint(2)? as u16),
            3 => K::I16(unzz(self.varint(2)?) as i16),
            4 => K::U32(self.varint(4)? as u32),
            5 => K::I32(unzz(self.varint(4)?) as i32),
            6 => K::U64(self.varint(8)?),
            7 => K::I64(unzz(self.varint(8)?)),
            8 => K::Str(self.str()?),
            _ => K::Uuid(self.arr()?),
        })
    }

    fn seq(&mut self, v2: bool, mut f: impl FnMut(&mut Self) -> Result<(), Bad>) -> Result<(), Bad> {
        if v2 {
            self.saw_v2 = true;
            loop {
                match self.u8()? {
                    0 => return Ok(()),
                    1 => f(self)?,
                    _ => return Err(Bad::Marker),
                }
            }
        } else {
            let n = self.varint(4)?;
            for _ in 0..n {
                f(self)?;
            }
            Ok(())
        }
    }

    pub fn value(&mut self, depth: usize) -> Result<N, Bad> {
        if depth > self.max_depth {
            return Err(Bad::TooDeep);
        }
        let start = self.pos;
        let k = self.u8()?;
        let v = match k {
            0 => N::None,
            1 => N::Some(Box::new(self.value(depth + 1)?)),
            2 => N::Bool(self.u8()? != 0),
            3 => N::U8(self.u8()?),
            4 => N::I8(self.u8()? as i8),
            5 => N::U16(self.varint(2)? as u16),
            6 => N::I16(unzz(self.varint(2)?) as i16),
            7 => N::U32(self.varint(4)? as u32),
            8 => N::I32(unzz(self.varint(4)?) as i32),
            9 => N::U64(self.varint(8)?),
            10 => N::I64(unzz(self.varint(8)?)),
            11 => N::F32(u32::from_le_bytes(self.arr()?)),
            12 => N::F64(u64::from_le_bytes(self.arr()?)),
            13 => N::Str(self.str()?),
            14 => N::Uuid(self.arr()?),
            15 => N::Oid(self.arr()?),
            16 => N::Sid(self.arr()?),
            17 | 43 => {
                let mut v = Vec::new();
                self.seq(k == 43, |d| {
                    v.push(d.value(depth + 1)?);
                    Ok(())
                })?;
                N::Vec(v)
            }
            18 => {
                let n = self.varint(4)? as usize;
                N::Bytes(self.take(n)?.to_vec())
            }
            44 => {
                self.saw_v2 = true;
                let mut v = Vec::new();
                loop {
                    let n = self.varint(4)? as usize;
                    if n == 0 {
                        break;
                    }
                    v.extend_from_slice(self.take(n)?);
                }
                N::Bytes(v)
            }
            19..=28 | 45..=54 => {
                let v2 = k >= 45;
                let kk = if v2 { k - 45 } else { k - 19 };
                let mut m = BTreeMap::new();
                let mut dup = false;
                self.seq(v2, |d| {
                    let key = d.key(kk)?;
                    dup |= m.insert(key, d.value(depth + 1)?).is_some();
                    Ok(())
                })?;
                self.dups |= dup;
                N::Map(kk, m)
            }
            29..=38 | 55..=64 => {
                let v2 = k >= 55;
                let kk = if v2 { k - 55 } else { k - 29 };
                let mut m = BTreeSet::new();
                let mut dup = false;
                self.seq(v2, |d| {
                    dup |= !m.insert(d.key(kk)?);
                    Ok(())
                })?;
                self.dups |= dup;
                N::Set(kk, m)
            }
            39 | 65 => {
                let mut m = BTreeMap::new();
                let mut dup = false;
                self.seq(k == 65, |d| {
                    let id = d.varint(4)? as u32;
                    dup |= m.insert(id, d.value(depth + 1)?).is_some();
                    Ok(())
                })?;
                self.dups |= dup;
                N::Struct(m)
            }
            40 => {
                let id = self.varint(4)? as u32;
                N::Enum(id, Box::new(self.value(depth + 1)?))
            }
            41 => N::Sender(self.arr()?),
            42 => N::Receiver(self.arr()?),
            _ => return Err(Bad::Kind),
        };
        self.spans.push((start, self.pos));
        Ok(v)
    }
}

/// Decodes a complete value from the start of `buf`; returns it and the number of bytes used.
pub fn decode_prefix(buf: &[u8], utf8: bool) -> Result<(N, usize), Bad> {
    let mut d = Dec::new(buf, utf8);
    let v = d.value(1)?;
    Ok((v, d.pos))
}

/// Mutates bytes: flips, insertions, deletions, truncation, duplication, interesting bytes.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>) {
    let n = 1 + s.small(5);
    for _ in 0..n {
        let len = b.len();
        match s.us(9) {
            0 if len > 0 => {
                let i = s.us(len);
                b[i] ^= 1 << s.below(8);
            }
            1 if len > 0 => {
                let i = s.us(len);
                b[i] = s.byte();
            }
            2 if len > 0 => {
                let i = s.us(len);
                b.truncate(i);
            }
            3 => {
                let i = s.us(len + 1);
                let x = s.byte();
                b.insert(i, x);
            }
            4 if len > 0 => {
                let i = s.us(len);
                b.remove(i);
            }
            5 if len > 0 => {
                let i = s.us(len);
                b[i] = *s.pick(&[0u8, 1, 2, 65, 66, 247, 248, 251, 252, 253, 254, 255, 0x80, 0xc0]);
            }
            6 if len > 1 => {
                let i = s.us(len - 1);
                let j = s.range(i + 1, len - 1);
                let part = b[i..j].to_vec();
                let k = s.us(len);
                b.splice(k..k, part);
            }
            7 if len > 1 => {
                let i = s.us(len - 1);
                let j = s.range(i + 1, len - 1);
                b.drain(i..j);
            }
            8 => {
                let n = s.small(9);
                let e = s.bytes(n);
                b.extend(e);
            }
            _ => {
                let x = s.byte();
                b.push(x);
            }
        }
    }
}
