//! A walk over an encoded value through the low-level deserializers, choosing among all their
//! methods at every step (generic or versioned deserializers, one by one, in bulk, skipping,
//! carrying, finishing early, deliberate misuse), guided by the value the encoding stands for.
use crate::conv::{from_value, take_complaints, Walk};
use aldrin_core::tags::{self, KeyTag};
use aldrin_core::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use uuid::Uuid;
use vp::wire::{K, N};

thread_local! {
    static BITS: Cell<u64> = const { Cell::new(0) };
    /// What the next `Pick` stands for; `None` in unguided walks.
    static GUIDE: RefCell<Option<N>> = const { RefCell::new(None) };
    /// Set when the walk did something that has to fail.
    static DOOM: RefCell<Option<String>> = const { RefCell::new(None) };
    static WRONG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static MISUSE: Cell<bool> = const { Cell::new(false) };
    static STEPS: RefCell<BTreeMap<&'static str, u64>> = const { RefCell::new(BTreeMap::new()) };
}

fn bits() -> u64 {
    BITS.with(|c| {
        let v = vp::mix(c.get().wrapping_add(0x2468));
        c.set(v);
        v >> 3
    })
}

fn pick(n: u64) -> u64 {
    bits() % n
}

fn wrong(s: String) {
    WRONG.with(|w| w.borrow_mut().push(s));
}

fn step(s: &'static str) {
    STEPS.with(|m| *m.borrow_mut().entry(s).or_insert(0) += 1);
}

fn doom(s: &str) {
    step("misuse");
    DOOM.with(|d| *d.borrow_mut() = Some(s.to_string()));
}

fn guide(n: Option<&N>) {
    GUIDE.with(|g| *g.borrow_mut() = n.cloned());
}

fn same(what: &str, got: &N, want: Option<&N>) {
    if let Some(w) = want {
        if got != w {
            wrong(format!("{what}: got {got:?} instead of {w:?}"));
        }
    }
}

fn full(sv: &SerializedValueSlice, what: &str, want: Option<&N>) -> Result<(), DeserializeError> {
    let v = sv.deserialize_as::<tags::Value, Walk>()?;
    same(what, &v.0, want);
    Ok(())
}

pub struct Outcome {
    pub result: Result<(), DeserializeError>,
    pub doom: Option<String>,
    pub wrong: Vec<String>,
    pub steps: BTreeMap<&'static str, u64>,
}

/// Walks `sv`; `n` is what it encodes if that is known.
pub fn run(sv: &SerializedValueSlice, n: Option<&N>, seed: u64, misuse: bool) -> Outcome {
    BITS.set(seed);
    MISUSE.set(misuse);
    DOOM.with(|d| *d.borrow_mut() = None);
    WRONG.with(|d| d.borrow_mut().clear());
    STEPS.with(|d| d.borrow_mut().clear());
    crate::conv::WALK.set(seed);
    crate::conv::OPAQUE.set(false);
    guide(n);
    let result = sv.deserialize_as::<tags::Value, Pick>().map(|_| ());
    let mut wrong = WRONG.with(|d| std::mem::take(&mut *d.borrow_mut()));
    wrong.extend(take_complaints());
    Outcome {
        result,
        doom: DOOM.with(|d| d.borrow_mut().take()),
        wrong,
        steps: STEPS.with(|d| std::mem::take(&mut *d.borrow_mut())),
    }
}

fn mischief(one_in: u64) -> bool {
    MISUSE.get() && pick(one_in) == 0
}

/// The result of finishing early: an error exactly if elements remain.
fn early<T>(what: &str, left: Option<usize>, r: Result<T, DeserializeError>) -> Result<T, DeserializeError> {
    match (left, &r) {
        (Some(0), Err(e)) => wrong(format!("{what}: finishing says {e:?} though nothing remains")),
        (Some(n), Ok(_)) if n > 0 => wrong(format!("{what}: finished though {n} elements remain")),
        (Some(n), Err(e)) if n > 0 => {
            doom("finished early");
            if *e != DeserializeError::MoreElementsRemain {
                wrong(format!("{what}: finishing early with {n} elements left says {e:?}"));
            }
        }
        (None, Err(DeserializeError::MoreElementsRemain)) => doom("finished early"),
        _ => {}
    }
    r
}

pub struct Pick;

impl Deserialize<tags::Value> for Pick {
    fn deserialize(d: Deserializer) -> Result<Self, DeserializeError> {
        let g = GUIDE.with(|g| g.borrow_mut().take());
        let g = g.as_ref();
        match pick(16) {
            0 => {
                step("len, skip");
                d.len()?;
                d.skip()?;
                return Ok(Self);
            }
            1 => {
                step("split off");
                let sv = d.split_off_serialized_value()?;
                full(sv, "split off", g)?;
                return Ok(Self);
            }
            2 => {
                step("carry");
                let sv = SerializedValue::deserialize(d)?;
                full(&sv, "carried", g)?;
                return Ok(Self);
            }
            3 => {
                step("Value");
                let v = d.deserialize::<tags::Value, Value>()?;
                same("Value", &from_value(&v), g);
                return Ok(Self);
            }
            4 => {
                step("Walk");
                let v = d.deserialize::<tags::Value, Walk>()?;
                same("Walk", &v.0, g);
                return Ok(Self);
            }
            _ => {}
        }
        descend(d, g).map(|()| Self)
    }
}

fn descend(d: Deserializer, g: Option<&N>) -> Result<(), DeserializeError> {
    let kind = d.peek_value_kind()?;
    if mischief(60) {
        return misuse(d, kind);
    }
    match kind {
        ValueKind::Some => {
            let inner = match g {
                Some(N::Some(x)) => Some(&**x),
                Some(g) => {
                    wrong(format!("Some instead of {g:?}"));
                    None
                }
                None => None,
            };
            guide(inner);
            if pick(2) == 0 {
                d.deserialize_some::<tags::Value, Pick>().map(|_| ())
            } else {
                match d.deserialize_option::<tags::Value, Pick>()? {
                    Some(_) => Ok(()),
                    None => {
                        wrong("Some is decoded as None".into());
                        Ok(())
                    }
                }
            }
        }
        ValueKind::None if pick(2) == 0 => {
            match d.deserialize_option::<tags::Value, Pick>()? {
                None => same("option", &N::None, g),
                Some(_) => wrong("None is decoded as Some".into()),
            }
            Ok(())
        }
        ValueKind::Vec1 | ValueKind::Vec2 => vec(d, kind == ValueKind::Vec1, g),
        ValueKind::Bytes1 | ValueKind::Bytes2 => bytes(d, kind == ValueKind::Bytes1, g),
        ValueKind::Struct1 | ValueKind::Struct2 => struct_(d, kind == ValueKind::Struct1, g),
        ValueKind::Enum => enum_(d, g),
        k => {
            let k: u8 = k.into();
            let s = |k: String| K::Str(k.into_bytes());
            let uu = |k: Uuid| K::Uuid(*k.as_bytes());
            match k {
                19 | 45 => map::<tags::U8, u8>(d, 0, k < 30, g, K::U8),
                20 | 46 => map::<tags::I8, i8>(d, 1, k < 30, g, K::I8),
                21 | 47 => map::<tags::U16, u16>(d, 2, k < 30, g, K::U16),
                22 | 48 => map::<tags::I16, i16>(d, 3, k < 30, g, K::I16),
                23 | 49 => map::<tags::U32, u32>(d, 4, k < 30, g, K::U32),
                24 | 50 => map::<tags::I32, i32>(d, 5, k < 30, g, K::I32),
                25 | 51 => map::<tags::U64, u64>(d, 6, k < 30, g, K::U64),
                26 | 52 => map::<tags::I64, i64>(d, 7, k < 30, g, K::I64),
                27 | 53 => map::<tags::String, String>(d, 8, k < 30, g, s),
                28 | 54 => map::<tags::Uuid, Uuid>(d, 9, k < 30, g, uu),
                29 | 55 => set::<tags::U8, u8>(d, 0, k < 40, g, K::U8),
                30 | 56 => set::<tags::I8, i8>(d, 1, k < 40, g, K::I8),
                31 | 57 => set::<tags::U16, u16>(d, 2, k < 40, g, K::U16),
                32 | 58 => set::<tags::I16, i16>(d, 3, k < 40, g, K::I16),
                33 | 59 => set::<tags::U32, u32>(d, 4, k < 40, g, K::U32),
                34 | 60 => set::<tags::I32, i32>(d, 5, k < 40, g, K::I32),
                35 | 61 => set::<tags::U64, u64>(d, 6, k < 40, g, K::U64),
                36 | 62 => set::<tags::I64, i64>(d, 7, k < 40, g, K::I64),
                37 | 63 => set::<tags::String, String>(d, 8, k < 40, g, s),
                38 | 64 => set::<tags::Uuid, Uuid>(d, 9, k < 40, g, uu),
                _ => {
                    let v = d.deserialize::<tags::Value, Walk>()?;
                    same("leaf", &v.0, g);
                    Ok(())
                }
            }
        }
    }
}

/// Decoding as something else than what is there.
fn misuse(d: Deserializer, kind: ValueKind) -> Result<(), DeserializeError> {
    doom("decoded as another kind");
    macro_rules! try_as {
        ($($k:pat => $e:expr),* $(,)?) => {{
            let n = [$(stringify!($k)),*].len() as u64;
            let mut at = pick(n);
            loop {
                let mut i = 0;
                $(
                    if i == at {
                        if !matches!(kind, $k) {
                            #[allow(clippy::redundant_closure_call)]
                            return ($e)(d);
                        }
                    }
                    i += 1;
                )*
                let _ = i;
                at = (at + 1) % n;
            }
        }};
    }
    type D<'a, 'b> = Deserializer<'a, 'b>;
    type R = Result<(), DeserializeError>;
    use ValueKind as V;
    try_as!(
        V::None => |d: D| -> R { d.deserialize_none() },
        V::Some => |d: D| -> R { d.deserialize_some::<tags::Value, Pick>().map(|_| ()) },
        V::Some | V::None => |d: D| -> R { d.deserialize_option::<tags::Value, Pick>().map(|_| ()) },
        V::Bool => |d: D| -> R { d.deserialize_bool().map(|_| ()) },
        V::U8 => |d: D| -> R { d.deserialize_u8().map(|_| ()) },
        V::I8 => |d: D| -> R { d.deserialize_i8().map(|_| ()) },
        V::U16 => |d: D| -> R { d.deserialize_u16().map(|_| ()) },
        V::I16 => |d: D| -> R { d.deserialize_i16().map(|_| ()) },
        V::U32 => |d: D| -> R { d.deserialize_u32().map(|_| ()) },
        V::I32 => |d: D| -> R { d.deserialize_i32().map(|_| ()) },
        V::U64 => |d: D| -> R { d.deserialize_u64().map(|_| ()) },
        V::I64 => |d: D| -> R { d.deserialize_i64().map(|_| ()) },
        V::F32 => |d: D| -> R { d.deserialize_f32().map(|_| ()) },
        V::F64 => |d: D| -> R { d.deserialize_f64().map(|_| ()) },
        V::String => |d: D| -> R { d.deserialize_string().map(|_| ()) },
        V::Uuid => |d: D| -> R { d.deserialize_uuid().map(|_| ()) },
        V::ObjectId => |d: D| -> R { d.deserialize_object_id().map(|_| ()) },
        V::ServiceId => |d: D| -> R { d.deserialize_service_id().map(|_| ()) },
        V::Sender => |d: D| -> R { d.deserialize_sender().map(|_| ()) },
        V::Receiver => |d: D| -> R { d.deserialize_receiver().map(|_| ()) },
        V::Enum => |d: D| -> R { d.deserialize_enum()?.skip() },
        V::Vec1 | V::Vec2 => |d: D| -> R { d.deserialize_vec()?.skip() },
        V::Vec1 => |d: D| -> R { d.deserialize_vec1()?.skip() },
        V::Vec2 => |d: D| -> R { d.deserialize_vec2()?.skip() },
        V::Bytes1 | V::Bytes2 => |d: D| -> R { d.deserialize_bytes()?.skip() },
        V::Bytes1 => |d: D| -> R { d.deserialize_bytes1()?.skip() },
        V::Bytes2 => |d: D| -> R { d.deserialize_bytes2()?.skip() },
        V::Struct1 | V::Struct2 => |d: D| -> R { d.deserialize_struct()?.skip() },
        V::Struct1 => |d: D| -> R { d.deserialize_struct1()?.skip() },
        V::Struct2 => |d: D| -> R { d.deserialize_struct2()?.skip() },
        V::U8Map1 | V::U8Map2 => |d: D| -> R { d.deserialize_map::<tags::U8>()?.skip() },
        V::StringMap1 => |d: D| -> R { d.deserialize_map1::<tags::String>()?.skip() },
        V::U64Map2 => |d: D| -> R { d.deserialize_map2::<tags::U64>()?.skip() },
        V::I16Set1 | V::I16Set2 => |d: D| -> R { d.deserialize_set::<tags::I16>()?.skip() },
        V::UuidSet1 => |d: D| -> R { d.deserialize_set1::<tags::Uuid>()?.skip() },
        V::I64Set2 => |d: D| -> R { d.deserialize_set2::<tags::I64>()?.skip() },
    )
}

/// `len()` counts down from the number of elements.
fn check_len(what: &str, len: Option<usize>, total: Option<usize>, done: usize) {
    if let (Some(l), Some(t)) = (len, total) {
        if l != t.saturating_sub(done) {
            wrong(format!("{what}: len() says {l} after {done} of {t} elements"));
        }
    }
}

fn vec(d: Deserializer, v1: bool, g: Option<&N>) -> Result<(), DeserializeError> {
    let items = match g {
        Some(N::Vec(v)) => Some(&v[..]),
        Some(g) => {
            wrong(format!("a vec instead of {g:?}"));
            None
        }
        None => None,
    };
    macro_rules! all {
        ($extend:ident, $extend_new:ident) => {{
            step("vec at once");
            let got: Vec<N> = match pick(3) {
                0 => d.$extend_new::<tags::Value, Walk, Vec<Walk>>()?.into_iter().map(|w| w.0).collect(),
                1 => {
                    let mut v = vec![Walk(N::Bool(true))];
                    d.$extend::<tags::Value, Walk, _>(&mut v)?;
                    v.into_iter().skip(1).map(|w| w.0).collect()
                }
                _ => {
                    let mut r = Vec::new();
                    for sv in d.$extend_new::<tags::Value, SerializedValue, Vec<SerializedValue>>()? {
                        r.push(sv.deserialize_as::<tags::Value, Walk>()?.0);
                    }
                    r
                }
            };
            same("vec at once", &N::Vec(got), g);
            Ok(())
        }};
    }
    macro_rules! each {
        ($d:ident, $new:expr, $len:expr) => {{
            let mut $d = $new;
            let total = items.map(|i| i.len());
            let mut at = 0;
            loop {
                check_len("vec", $len, total, at);
                match pick(12) {
                    0 => {
                        step("vec: skip the rest");
                        return if pick(2) == 0 { $d.skip() } else { $d.skip_and_finish(()) };
                    }
                    1 => {
                        step("vec: the rest at once");
                        let mut rest: Vec<Walk> = Vec::new();
                        $d.deserialize_extend::<tags::Value, Walk, _>(&mut rest)?;
                        let rest = N::Vec(rest.into_iter().map(|w| w.0).collect());
                        same("rest of a vec", &rest, items.map(|i| N::Vec(i[at.min(i.len())..].to_vec())).as_ref());
                        return Ok(());
                    }
                    2 => {
                        step("vec: skip and finish with");
                        return $d.skip_and_finish_with(|| Ok(()));
                    }
                    3 if total == Some(at) || mischief(4) => {
                        step("vec: finish");
                        let left = total.map(|t| t - at);
                        return early("vec", left, if pick(2) == 0 { $d.finish(()) } else { $d.finish_with(|| Ok(())) });
                    }
                    4 | 5 => {
                        step("vec: skip element");
                        $d.skip_element()?;
                        // at the end, there is nothing to skip
                        if total != Some(at) {
                            at += 1;
                        }
                    }
                    _ => {
                        guide(items.and_then(|i| i.get(at)));
                        match $d.deserialize::<tags::Value, Pick>()? {
                            Some(_) => at += 1,
                            None => {
                                if let Some(t) = total {
                                    if t != at {
                                        wrong(format!("vec ends after {at} of {t} elements"));
                                    }
                                }
                                let again = pick(2) == 0;
                                if again && $d.deserialize::<tags::Value, Pick>()?.is_some() {
                                    wrong("vec continues after its end".into());
                                }
                                return match pick(4) {
                                    0 => $d.finish(()),
                                    1 => $d.finish_with(|| Ok(())),
                                    2 => $d.skip(),
                                    _ => $d.skip_and_finish(()),
                                };
                            }
                        }
                        if total.is_some_and(|t| at > t) {
                            wrong(format!("vec has more than {total:?} elements"));
                        }
                    }
                }
            }
        }};
    }
    match (pick(6), v1) {
        (0, _) => all!(deserialize_vec_extend, deserialize_vec_extend_new),
        (1, true) => all!(deserialize_vec1_extend, deserialize_vec1_extend_new),
        (1, false) => all!(deserialize_vec2_extend, deserialize_vec2_extend_new),
        (2 | 3, true) => each!(d, d.deserialize_vec1()?, {
            if d.is_empty() != (d.len() == 0) {
                wrong("is_empty() of a vec".into());
            }
            Some(d.len())
        }),
        (2 | 3, false) => each!(d, d.deserialize_vec2()?, None),
        _ => each!(d, d.deserialize_vec()?, None),
    }
}

fn bytes(d: Deserializer, v1: bool, g: Option<&N>) -> Result<(), DeserializeError> {
    let all = match g {
        Some(N::Bytes(b)) => Some(&b[..]),
        Some(g) => {
            wrong(format!("bytes instead of {g:?}"));
            None
        }
        None => None,
    };
    let check = |what: &str, got: &[u8], from: usize| {
        if let Some(b) = all {
            if got != &b[from.min(b.len())..] {
                wrong(format!("{what}: {} instead of {}", vp::hex(got), vp::hex(&b[from.min(b.len())..])));
            }
        }
    };
    macro_rules! at_once {
        ($extend:ident, $extend_new:ident) => {{
            step("bytes at once");
            if pick(2) == 0 {
                check("bytes at once", &d.$extend_new::<Vec<u8>>()?, 0);
            } else {
                let mut v = vec![7u8];
                d.$extend(&mut v)?;
                check("bytes extended", &v[1..], 0);
            }
            Ok(())
        }};
    }
    macro_rules! each {
        ($d:ident, $new:expr, $len:expr) => {{
            let mut $d = $new;
            let total = all.map(|b| b.len());
            let mut at = 0;
            loop {
                check_len("bytes", $len, total, at);
                let left = total.map(|t| t - at);
                match pick(10) {
                    0 => {
                        step("bytes: skip the rest");
                        return match pick(3) {
                            0 => $d.skip(),
                            1 => $d.skip_and_finish(()),
                            _ => $d.skip_and_finish_with(|| Ok(())),
                        };
                    }
                    1 => {
                        step("bytes: the rest at once");
                        let mut rest = Vec::new();
                        $d.deserialize_extend(&mut rest)?;
                        check("rest of bytes", &rest, at);
                        return Ok(());
                    }
                    2 if left == Some(0) || mischief(4) => {
                        step("bytes: finish");
                        return early("bytes", left, if pick(2) == 0 { $d.finish(()) } else { $d.finish_with(|| Ok(())) });
                    }
                    3 if mischief(8) => {
                        // beyond the present chunk
                        let n = $d.as_slice()?.len() + 1 + pick(9) as usize;
                        let r = $d.advance(n);
                        if r.is_ok() {
                            wrong(format!("advanced by {n} in bytes with {} available", n - 1));
                        }
                        doom("advanced too far");
                        return r;
                    }
                    4 => $d.advance(0)?,
                    _ => {
                        let s = $d.as_slice()?;
                        if s.is_empty() {
                            if total.is_some_and(|t| t != at) {
                                wrong(format!("bytes end after {at} of {total:?}"));
                            }
                            return match pick(4) {
                                0 => $d.finish(()),
                                1 => $d.finish_with(|| Ok(())),
                                2 => $d.skip(),
                                _ => $d.skip_and_finish(()),
                            };
                        }
                        let n = if pick(2) == 0 { s.len() } else { 1 + bits() as usize % s.len() };
                        if let Some(b) = all {
                            if b.get(at..at + n) != Some(&s[..n]) {
                                wrong(format!("bytes {}..{} differ", at, at + n));
                                return Ok(());
                            }
                        }
                        step("bytes: advance");
                        $d.advance(n)?;
                        at += n;
                    }
                }
            }
        }};
    }
    match (pick(6), v1) {
        (0, _) => at_once!(deserialize_bytes_extend, deserialize_bytes_extend_new),
        (1, true) => at_once!(deserialize_bytes1_extend, deserialize_bytes1_extend_new),
        (1, false) => at_once!(deserialize_bytes2_extend, deserialize_bytes2_extend_new),
        (2 | 3, true) => each!(d, d.deserialize_bytes1()?, {
            if d.is_empty() != (d.len() == 0) {
                wrong("is_empty() of bytes".into());
            }
            Some(d.len())
        }),
        (2 | 3, false) => each!(d, d.deserialize_bytes2()?, None),
        _ => each!(d, d.deserialize_bytes()?, None),
    }
}

fn map<Kt: KeyTag, Kx: DeserializeKey<Kt> + Clone>(
    d: Deserializer,
    kk: u8,
    v1: bool,
    g: Option<&N>,
    f: impl Fn(Kx) -> K,
) -> Result<(), DeserializeError> {
    let items = match g {
        Some(N::Map(k, m)) if *k == kk => Some(m),
        Some(g) => {
            wrong(format!("a map with keys {kk} instead of {g:?}"));
            None
        }
        None => None,
    };
    let known = |k: &K| -> Option<&N> {
        let m = items?;
        let r = m.get(k);
        if r.is_none() {
            wrong(format!("a map has the unexpected key {k:?}"));
        }
        r
    };
    macro_rules! all {
        ($extend:ident, $extend_new:ident) => {{
            step("map at once");
            let got: Vec<(Kx, Walk)> = if pick(2) == 0 {
                d.$extend_new::<Kt, Kx, tags::Value, Walk, Vec<(Kx, Walk)>>()?
            } else {
                let mut v = Vec::new();
                d.$extend::<Kt, Kx, tags::Value, Walk, _>(&mut v)?;
                v
            };
            let got: Vec<(K, N)> = got.into_iter().map(|(k, v)| (f(k), v.0)).collect();
            if items.is_some_and(|m| m.len() != got.len()) {
                wrong(format!("map at once: {} elements", got.len()));
            }
            same("map at once", &N::Map(kk, got.into_iter().collect()), g);
            Ok(())
        }};
    }
    macro_rules! each {
        ($d:ident, $new:expr, $len:expr) => {{
            let mut $d = $new;
            let total = items.map(|i| i.len());
            let mut at = 0;
            loop {
                check_len("map", $len, total, at);
                match pick(13) {
                    0 => {
                        step("map: skip the rest");
                        return match pick(3) {
                            0 => $d.skip(),
                            1 => $d.skip_and_finish(()),
                            _ => $d.skip_and_finish_with(|| Ok(())),
                        };
                    }
                    1 => {
                        step("map: the rest at once");
                        let mut rest: Vec<(Kx, Walk)> = Vec::new();
                        $d.deserialize_extend::<Kx, tags::Value, Walk, _>(&mut rest)?;
                        if total.is_some_and(|t| rest.len() + at != t) {
                            wrong(format!("rest of a map: {} after {at} of {total:?}", rest.len()));
                        }
                        for (k, v) in rest {
                            same("rest of a map", &v.0, known(&f(k)));
                        }
                        return Ok(());
                    }
                    2 if total == Some(at) || mischief(4) => {
                        step("map: finish");
                        let left = total.map(|t| t - at);
                        return early("map", left, if pick(2) == 0 { $d.finish(()) } else { $d.finish_with(|| Ok(())) });
                    }
                    3 | 4 => {
                        step("map: skip element");
                        $d.skip_element()?;
                        // at the end, there is nothing to skip
                        if total != Some(at) {
                            at += 1;
                        }
                    }
                    c => {
                        let end = if c % 2 == 0 {
                            step("map: element");
                            match $d.deserialize_element::<Kx, tags::Value, Walk>()? {
                                Some((k, v)) => {
                                    same("map element", &v.0, known(&f(k)));
                                    false
                                }
                                None => true,
                            }
                        } else {
                            match $d.deserialize::<Kx>()? {
                                Some(e) => {
                                    let k = f(e.key().clone());
                                    let want = known(&k);
                                    if pick(4) == 0 {
                                        step("map: skip value");
                                        e.skip()?;
                                    } else {
                                        step("map: value");
                                        guide(want);
                                        let (k2, _) = e.deserialize::<tags::Value, Pick>()?;
                                        if f(k2) != k {
                                            wrong("a map element changes its key".into());
                                        }
                                    }
                                    false
                                }
                                None => true,
                            }
                        };
                        if !end {
                            at += 1;
                            if total.is_some_and(|t| at > t) {
                                wrong(format!("map has more than {total:?} elements"));
                            }
                            continue;
                        }
                        if total.is_some_and(|t| t != at) {
                            wrong(format!("map ends after {at} of {total:?} elements"));
                        }
                        if pick(2) == 0 && $d.deserialize::<Kx>()?.is_some() {
                            wrong("map continues after its end".into());
                        }
                        return match pick(5) {
                            0 => $d.finish(()),
                            1 => $d.finish_with(|| Ok(())),
                            2 => $d.skip(),
                            3 => $d.skip_and_finish_with(|| Ok(())),
                            _ => $d.skip_and_finish(()),
                        };
                    }
                }
            }
        }};
    }
    match (pick(6), v1) {
        (0, _) => all!(deserialize_map_extend, deserialize_map_extend_new),
        (1, true) => all!(deserialize_map1_extend, deserialize_map1_extend_new),
        (1, false) => all!(deserialize_map2_extend, deserialize_map2_extend_new),
        (2 | 3, true) => each!(d, d.deserialize_map1::<Kt>()?, {
            if d.is_empty() != (d.len() == 0) {
                wrong("is_empty() of a map".into());
            }
            Some(d.len())
        }),
        (2 | 3, false) => each!(d, d.deserialize_map2::<Kt>()?, None),
        _ => each!(d, d.deserialize_map::<Kt>()?, None),
    }
}

fn set<Kt: KeyTag, Kx: DeserializeKey<Kt> + Clone>(
    d: Deserializer,
    kk: u8,
    v1: bool,
    g: Option<&N>,
    f: impl Fn(Kx) -> K,
) -> Result<(), DeserializeError> {
    let items = match g {
        Some(N::Set(k, m)) if *k == kk => Some(m),
        Some(g) => {
            wrong(format!("a set of keys {kk} instead of {g:?}"));
            None
        }
        None => None,
    };
    let known = |k: K| {
        if items.is_some_and(|m| !m.contains(&k)) {
            wrong(format!("a set has the unexpected key {k:?}"));
        }
    };
    macro_rules! all {
        ($extend:ident, $extend_new:ident) => {{
            step("set at once");
            let got: Vec<Kx> = if pick(2) == 0 {
                d.$extend_new::<Kt, Kx, Vec<Kx>>()?
            } else {
                let mut v = Vec::new();
                d.$extend::<Kt, Kx, _>(&mut v)?;
                v
            };
            if items.is_some_and(|m| m.len() != got.len()) {
                wrong(format!("set at once: {} elements", got.len()));
            }
            same("set at once", &N::Set(kk, got.into_iter().map(&f).collect()), g);
            Ok(())
        }};
    }
    macro_rules! each {
        ($d:ident, $new:expr, $len:expr) => {{
            let mut $d = $new;
            let total = items.map(|i| i.len());
            let mut at = 0;
            loop {
                check_len("set", $len, total, at);
                match pick(12) {
                    0 => {
                        step("set: skip the rest");
                        return match pick(3) {
                            0 => $d.skip(),
                            1 => $d.skip_and_finish(()),
                            _ => $d.skip_and_finish_with(|| Ok(())),
                        };
                    }
                    1 => {
                        step("set: the rest at once");
                        let mut rest: Vec<Kx> = Vec::new();
                        $d.deserialize_extend::<Kx, _>(&mut rest)?;
                        if total.is_some_and(|t| rest.len() + at != t) {
                            wrong(format!("rest of a set: {} after {at} of {total:?}", rest.len()));
                        }
                        rest.into_iter().for_each(|k| known(f(k)));
                        return Ok(());
                    }
                    2 if total == Some(at) || mischief(4) => {
                        step("set: finish");
                        let left = total.map(|t| t - at);
                        return early("set", left, if pick(2) == 0 { $d.finish(()) } else { $d.finish_with(|| Ok(())) });
                    }
                    3 | 4 => {
                        step("set: skip element");
                        $d.skip_element()?;
                        // at the end, there is nothing to skip
                        if total != Some(at) {
                            at += 1;
                        }
                    }
                    _ => match $d.deserialize::<Kx>()? {
                        Some(k) => {
                            known(f(k));
                            at += 1;
                            if total.is_some_and(|t| at > t) {
                                wrong(format!("set has more than {total:?} elements"));
                            }
                        }
                        None => {
                            if total.is_some_and(|t| t != at) {
                                wrong(format!("set ends after {at} of {total:?} elements"));
                            }
                            if pick(2) == 0 && $d.deserialize::<Kx>()?.is_some() {
                                wrong("set continues after its end".into());
                            }
                            return match pick(5) {
                                0 => $d.finish(()),
                                1 => $d.finish_with(|| Ok(())),
                                2 => $d.skip(),
                                3 => $d.skip_and_finish_with(|| Ok(())),
                                _ => $d.skip_and_finish(()),
                            };
                        }
                    },
                }
            }
        }};
    }
    match (pick(6), v1) {
        (0, _) => all!(deserialize_set_extend, deserialize_set_extend_new),
        (1, true) => all!(deserialize_set1_extend, deserialize_set1_extend_new),
        (1, false) => all!(deserialize_set2_extend, deserialize_set2_extend_new),
        (2 | 3, true) => each!(d, d.deserialize_set1::<Kt>()?, {
            if d.is_empty() != (d.len() == 0) {
                wrong("is_empty() of a set".into());
            }
            Some(d.len())
        }),
        (2 | 3, false) => each!(d, d.deserialize_set2::<Kt>()?, None),
        _ => each!(d, d.deserialize_set::<Kt>()?, None),
    }
}

/// What a struct deserializer captured, against what was put there.
fn unknown(u: UnknownFields, want: &BTreeMap<u32, Option<N>>, guided: bool) -> Result<(), DeserializeError> {
    let ids: std::collections::BTreeSet<u32> = u.iter().map(|(id, _)| id).collect();
    if ids != want.keys().copied().collect() || u.iter().len() != want.len() {
        wrong(format!("captured fields {ids:?} instead of {:?}", want.keys()));
        return Ok(());
    }
    let s = u.deserialize_as_value()?;
    if !guided {
        return Ok(());
    }
    let want: BTreeMap<u32, N> = want.iter().map(|(id, n)| (*id, n.clone().unwrap())).collect();
    let n = N::Struct(want.clone());
    same("captured fields", &from_value(&Value::Struct(s)), Some(&n));
    if u.has_fields_set() != want.values().any(|n| *n != N::None) {
        wrong(format!("has_fields_set() is {} for {want:?}", u.has_fields_set()));
    }
    // and back into a struct
    struct Again<'a>(&'a UnknownFields, u64);
    impl Serialize<tags::Value> for Again<'_> {
        fn serialize(self, s: Serializer) -> Result<(), SerializeError> {
            let u = self.0;
            let refs = || UnknownFieldsRef(u.iter().collect::<Vec<_>>());
            match self.1 {
                0 => s.serialize_struct1_with_unknown_fields(0, u.clone())?.finish(),
                1 => s.serialize_struct2_with_unknown_fields(u.clone())?.finish(),
                2 => s.serialize_struct1_with_unknown_fields(0, refs())?.finish(),
                3 => s.serialize_struct2_with_unknown_fields(refs())?.finish(),
                4 => {
                    let mut s = s.serialize_struct1(u.len())?;
                    s.serialize_unknown_fields(u)?;
                    s.finish()
                }
                5 => {
                    let mut s = s.serialize_struct1_with_unknown_fields(1, u)?;
                    if s.remaining_fields() != 1 || !s.requires_additional_fields() {
                        wrong(format!("{} fields remain instead of 1", s.remaining_fields()));
                    }
                    let id = (0..).find(|i| !u.contains_key(i)).unwrap();
                    s.serialize::<tags::U8>(id, 9u8)?;
                    s.finish()
                }
                _ => s.serialize_struct2_with_unknown_fields(u)?.finish(),
            }
        }
    }
    let how = pick(7);
    let mut n = want;
    if how == 5 {
        let id = (0..).find(|i| !n.contains_key(i)).unwrap();
        n.insert(id, N::U8(9));
    }
    match SerializedValue::serialize_as::<tags::Value>(Again(&u, how)) {
        Ok(sv) => match vp::wire::decode_prefix(&sv, true) {
            Ok((m, c)) if c == sv.len() => same("captured fields serialized again", &m, Some(&N::Struct(n))),
            r => wrong(format!("captured fields serialize to {}: {r:?}", vp::hex(&sv))),
        },
        Err(e) => wrong(format!("captured fields do not serialize again: {e:?}")),
    }
    Ok(())
}

fn struct_(d: Deserializer, v1: bool, g: Option<&N>) -> Result<(), DeserializeError> {
    let items = match g {
        Some(N::Struct(m)) => Some(m),
        Some(g) => {
            wrong(format!("a struct instead of {g:?}"));
            None
        }
        None => None,
    };
    macro_rules! each {
        ($d:ident, $new:expr, $len:expr) => {{
            let mut $d = $new;
            let total = items.map(|i| i.len());
            let mut at = 0;
            let mut captured: BTreeMap<u32, Option<N>> = BTreeMap::new();
            let guided = items.is_some();
            loop {
                check_len("struct", $len, total, at);
                match pick(12) {
                    0 => {
                        step("struct: skip the rest");
                        return match pick(3) {
                            0 => $d.skip(),
                            1 => $d.skip_and_finish(()),
                            _ => $d.skip_and_finish_with(|u| unknown(u, &captured, guided)),
                        };
                    }
                    1 if total == Some(at) || mischief(4) => {
                        step("struct: finish");
                        let left = total.map(|t| t - at);
                        let r = if pick(2) == 0 {
                            $d.finish(())
                        } else {
                            let mut called = false;
                            let r = $d.finish_with(|u| {
                                called = true;
                                unknown(u, &captured, guided)
                            });
                            if r.is_ok() && !called {
                                wrong("finish_with() does not call back".into());
                            }
                            r
                        };
                        return early("struct", left, r);
                    }
                    2 if mischief(6) => {
                        // the one id that is not there
                        let id = items.map_or(77, |m| (0..).find(|i| !m.contains_key(i)).unwrap());
                        let r = $d.deserialize_specific_field::<tags::Value, Walk>(id);
                        if guided {
                            doom("asked for a field that is not next");
                            if r.is_ok() {
                                wrong(format!("found the field {id}"));
                            }
                        } else if r.is_err() {
                            doom("asked for a field that is not next");
                        }
                        r?;
                        at += 1;
                    }
                    3 if total == Some(at + 1) && at == 0 => {
                        step("struct: specific field");
                        let (id, n) = items.unwrap().first_key_value().unwrap();
                        guide(Some(n));
                        $d.deserialize_specific_field::<tags::Value, Pick>(*id)?;
                        at += 1;
                    }
                    c => match $d.deserialize()? {
                        Some(f) => {
                            let id = f.id();
                            let want = match items {
                                Some(m) => {
                                    if !m.contains_key(&id) {
                                        wrong(format!("struct has the unexpected field {id}"));
                                    }
                                    m.get(&id)
                                }
                                None => None,
                            };
                            if f.try_id::<u8>().ok() != u8::try_from(id).ok() || f.try_id::<u32>().ok() != Some(id) {
                                wrong(format!("try_id() of field {id}"));
                            }
                            match c % 4 {
                                0 => {
                                    step("struct: skip field");
                                    f.skip()?;
                                }
                                1 => {
                                    step("struct: capture field");
                                    f.add_to_unknown_fields()?;
                                    captured.insert(id, want.cloned());
                                }
                                _ => {
                                    step("struct: field");
                                    guide(want);
                                    f.deserialize::<tags::Value, Pick>()?;
                                }
                            }
                            at += 1;
                            if total.is_some_and(|t| at > t) {
                                wrong(format!("struct has more than {total:?} fields"));
                            }
                        }
                        None => {
                            if total.is_some_and(|t| t != at) {
                                wrong(format!("struct ends after {at} of {total:?} fields"));
                            }
                            if pick(2) == 0 && $d.deserialize()?.is_some() {
                                wrong("struct continues after its end".into());
                            }
                            return match pick(5) {
                                0 => $d.finish(()),
                                1 => $d.finish_with(|u| unknown(u, &captured, guided)),
                                2 => $d.skip(),
                                3 => $d.skip_and_finish_with(|u| unknown(u, &captured, guided)),
                                _ => $d.skip_and_finish(()),
                            };
                        }
                    },
                }
            }
        }};
    }
    match (pick(3), v1) {
        (0, _) => each!(d, d.deserialize_struct()?, None),
        (_, true) => each!(d, d.deserialize_struct1()?, {
            if d.is_empty() != (d.len() == 0) {
                wrong("is_empty() of a struct".into());
            }
            Some(d.len())
        }),
        _ => each!(d, d.deserialize_struct2()?, None),
    }
}

fn enum_(d: Deserializer, g: Option<&N>) -> Result<(), DeserializeError> {
    let inner = match g {
        Some(N::Enum(id, x)) => Some((*id, &**x)),
        Some(g) => {
            wrong(format!("an enum instead of {g:?}"));
            None
        }
        None => None,
    };
    let d = d.deserialize_enum()?;
    let id = d.id();
    if inner.is_some_and(|i| i.0 != id) || d.try_id::<u32>().ok() != Some(id) || d.try_id::<u16>().ok() != u16::try_from(id).ok() {
        wrong(format!("enum variant {id} instead of {:?}", inner.map(|i| i.0)));
    }
    let inner = inner.map(|i| i.1);
    match pick(8) {
        0 => {
            step("enum: skip");
            d.skip()
        }
        1 | 2 => {
            step("enum: carry");
            let v = d.into_unknown_variant()?;
            if UnknownVariant::id(&v) != id {
                wrong("carried variant id".into());
            }
            full(UnknownVariant::value(&v), "carried variant", inner)?;
            let e = v.deserialize_as_value()
                .map(|e| from_value(&Value::Enum(Box::new(e))));
            // the payload of a variant is an enum only if it is one
            match (inner, e) {
                (Some(n @ N::Enum(..)), Ok(m)) => same("variant payload", &m, Some(n)),
                (Some(N::Enum(..)), Err(e)) => wrong(format!("variant payload: {e:?}")),
                (Some(n), Ok(m)) => wrong(format!("variant payload {n:?} decoded as {m:?}")),
                _ => {}
            }
            let w = v.deserialize_as::<tags::Value, Walk>()?;
            same("variant payload", &w.0, inner);
            full(&v.clone().into_value(), "variant value", inner)
        }
        3 if inner == Some(&N::None) || mischief(6) => {
            step("enum: unit");
            let r = d.deserialize_unit();
            match inner {
                Some(N::None) if r.is_err() => wrong(format!("unit variant: {r:?}")),
                Some(N::None) => {}
                Some(n) => {
                    doom("took a variant for a unit variant");
                    if r.is_ok() {
                        wrong(format!("{n:?} is taken for a unit"));
                    }
                }
                None => {
                    if r.is_err() {
                        doom("took a variant for a unit variant");
                    }
                }
            }
            r
        }
        _ => {
            guide(inner);
            d.deserialize::<tags::Value, Pick>().map(|_| ())
        }
    }
}
