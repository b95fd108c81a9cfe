//! Byte strings around the value format: valid encodings in both epochs, their mutations and
//! truncations, length bombs, nesting bombs, invalid UTF-8 and plain noise.
use vp::wire::{self, Epoch, N};
use vp::Src;

pub fn gen_tree(src: &mut Src) -> N {
    match src.weighted(&[2, 6, 2]) {
        0 => wire::gen_leaf(src),
        1 => {
            let mut budget = 60;
            let d = src.range(1, 7);
            wire::gen_value(src, d, &mut budget)
        }
        _ => {
            let d = src.range(1, 36);
            wire::gen_chain(src, d)
        }
    }
}

pub fn epoch(src: &mut Src) -> Epoch {
    *src.pick(&[Epoch::V1, Epoch::V2, Epoch::Mixed])
}

fn huge(src: &mut Src, out: &mut Vec<u8>) {
    let v = *src.pick(&[0xffff_ffffu64, 0x7fff_ffff, 0x8000_0000, 0x00ff_ffff, 0x10_0000, 0xffff, 300]);
    wire::varint(out, v, 4);
}

/// Returns (bytes, what). Never empty.
pub fn gen_bytes(src: &mut Src) -> (Vec<u8>, &'static str) {
    let (mut b, what) = match src.weighted(&[6, 4, 5, 2, 2, 2, 2]) {
        0 => {
            let n = gen_tree(src);
            let e = epoch(src);
            let s = src.bool();
            (wire::encode(src, &n, e, s), "valid")
        }
        1 | 2 => {
            let n = gen_tree(src);
            let e = epoch(src);
            let s = src.bool();
            let mut b = wire::encode(src, &n, e, s);
            wire::mutate(src, &mut b);
            (b, "mutated")
        }
        3 => {
            // break the UTF-8 of some strings, nothing else
            let n = gen_tree(src);
            let e = epoch(src);
            let n = match src.us(3) {
                0 => N::Map(8, [(wire::K::Str(wire::gen_string(src, 6)), n)].into()),
                1 => N::Vec(vec![n, N::Str(b"abc".to_vec())]),
                _ => N::Struct([(3, N::Set(8, [wire::K::Str(b"kk".to_vec())].into())), (4, n)].into()),
            };
            let mut b = wire::encode(src, &n, e, false);
            let mut d = wire::Dec::new(&b, false);
            let _ = d.value(1);
            let strings: Vec<_> = d.strings.iter().copied().filter(|s| s.1 > 0).collect();
            if !strings.is_empty() {
                let (at, len) = *src.pick(&strings);
                b[at + src.us(len)] = *src.pick(&[0xffu8, 0x80, 0xc0, 0xf5, 0xed]);
            }
            (b, "bad utf-8")
        }
        4 => {
            // a huge count or length somewhere
            let mut b = Vec::new();
            for _ in 0..src.small(6) {
                match src.us(4) {
                    0 => b.push(1),
                    1 => b.extend([17, 1]),
                    2 => b.extend([43, 1]),
                    _ => b.extend([39, 1, 9]),
                }
            }
            let k = *src.pick(&[17u8, 18, 13, 39, 44]);
            let k = match src.us(3) {
                0 => k,
                1 => 19 + src.below(10) as u8,
                _ => 29 + src.below(10) as u8,
            };
            b.push(k);
            huge(src, &mut b);
            if src.bool() && (k == 27 || k == 37) {
                huge(src, &mut b);
            }
            let n = src.small(40);
            match src.us(3) {
                0 => b.extend(src.bytes(n)),
                1 => b.extend(vec![0; n]),
                _ => b.extend(vec![1; n]),
            }
            (b, "length bomb")
        }
        5 => {
            // nesting around and beyond the limit, cut or completed
            let reps = *src.pick(&[28usize, 30, 31, 32, 33, 40, 300]);
            let mut b = Vec::new();
            for _ in 0..reps {
                match src.us(6) {
                    0 => b.push(1),
                    1 => b.extend([17, 1]),
                    2 => b.extend([43, 1]),
                    3 => b.extend([39, 1, 9]),
                    4 => b.extend([40, 9]),
                    _ => b.extend([19, 1, 9]),
                }
            }
            let n = src.small(30);
            let t = if src.bool() { vec![0; n] } else { src.bytes(n) };
            b.extend(t);
            (b, "nesting")
        }
        _ => {
            let n = 1 + src.small(40);
            let mut b = src.bytes(n);
            b[0] %= 70;
            (b, "noise")
        }
    };
    if b.is_empty() {
        b.push(0);
    }
    (b, what)
}
