//! What generated code is linked against: all of aldrin at the root, so that this crate can stand
//! in for `::aldrin`, and a server that exercises the generated types.
pub use aldrin::*;

pub mod rt {
    use aldrin::core::introspection::{Introspectable, Introspection};
    pub use aldrin::core::tags::PrimaryTag;
    use aldrin::core::tags::Tag;
    use aldrin::core::message::{Message, MessageOps};
    use aldrin::core::{Deserialize, Serialize, SerializedValue, TypeId};
    use std::io::{Read, Write};

    type Encoded = Result<Vec<u8>, String>;

    pub struct Entry {
        pub value: Option<Box<dyn Fn(&[u8], u8) -> Encoded + Send + Sync>>,
        pub id: Option<fn() -> TypeId>,
        pub record: Option<fn() -> Introspection>,
    }

    fn decode<T: PrimaryTag + Deserialize<T::Tag>>(b: &[u8]) -> Result<T, String> {
        raw(b).deserialize_as::<T::Tag, T>().map_err(|e| format!("decode: {e}"))
    }

    /// An arbitrary non-empty byte string as a `SerializedValue` (through a message frame).
    pub fn raw(b: &[u8]) -> SerializedValue {
        let mut f = Vec::with_capacity(b.len() + 32);
        f.extend_from_slice(&((b.len() + 4 + 1 + 4 + 16) as u32).to_le_bytes());
        f.push(27); // SendItem
        f.extend_from_slice(&(b.len() as u32).to_le_bytes());
        f.extend_from_slice(b);
        f.extend_from_slice(&[0; 16]);
        match Message::deserialize_message(bytes::BytesMut::from(&f[..])).expect("send item") {
            Message::SendItem(m) => m.value,
            m => panic!("unexpected {m:?}"),
        }
    }

    /// Decodes a value of `T` and encodes it again in the way `op` says; `by_ref_type` encodes
    /// through the reference type.
    pub fn value<T>(by_ref_type: fn(&T) -> Encoded) -> Option<Box<dyn Fn(&[u8], u8) -> Encoded + Send + Sync>>
    where
        T: PrimaryTag + Deserialize<<T as PrimaryTag>::Tag> + Serialize<<T as PrimaryTag>::Tag> + Clone + std::fmt::Debug + 'static,
        for<'a> &'a T: Serialize<<T as PrimaryTag>::Tag>,
        <T as PrimaryTag>::Tag: Tag,
    {
        Some(Box::new(move |b, op| {
            let v = decode::<T>(b)?;
            match op {
                0 => bytes::<T::Tag, _>(&v),
                1 => bytes::<T::Tag, _>(v),
                2 => by_ref_type(&v),
                _ => {
                    let c = v.clone();
                    let _ = format!("{c:?}");
                    drop(v);
                    bytes::<T::Tag, _>(c)
                }
            }
        }))
    }

    pub fn bytes<G: Tag, T: Serialize<G>>(v: T) -> Encoded {
        SerializedValue::serialize_as::<G>(v).map(|v| AsRef::<[u8]>::as_ref(&v).to_vec()).map_err(|e| format!("encode: {e}"))
    }

    pub fn id<T: Introspectable>() -> Option<fn() -> TypeId> {
        Some(TypeId::compute::<T>)
    }

    pub fn record<T: Introspectable>() -> Option<fn() -> Introspection> {
        Some(Introspection::new::<T>)
    }

    /// Requests: entry u32, op u8, len u32, bytes. Replies: ok u8, len u32, bytes.
    pub fn serve(entries: &[Entry]) {
        // without optimisation, the code for large types needs a lot of stack
        std::thread::scope(|s| {
            std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || serve_here(entries)).unwrap();
        });
    }

    fn serve_here(entries: &[Entry]) {
        std::panic::set_hook(Box::new(|_| {}));
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::BufWriter::new(std::io::stdout().lock()));
        let mut h = [0; 9];
        while i.read_exact(&mut h).is_ok() {
            let e = &entries[u32::from_le_bytes(h[..4].try_into().unwrap()) as usize];
            let mut b = vec![0; u32::from_le_bytes(h[5..].try_into().unwrap()) as usize];
            i.read_exact(&mut b).unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match h[4] {
                100 => Ok(e.id.ok_or("no id")?().0.as_bytes().to_vec()),
                101 => SerializedValue::serialize(e.record.ok_or("no record")?()).map(|v| AsRef::<[u8]>::as_ref(&v).to_vec()).map_err(|e| e.to_string()),
                op => e.value.as_ref().ok_or("no value")?(&b, op),
            }))
            .unwrap_or_else(|p| {
                let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
                Err(format!("panic: {}", m.unwrap_or_default()))
            });
            let (ok, b) = match r {
                Ok(b) => (1u8, b),
                Err(e) => (0, e.into_bytes()),
            };
            o.write_all(&[ok]).unwrap();
            o.write_all(&(b.len() as u32).to_le_bytes()).unwrap();
            o.write_all(&b).unwrap();
            o.flush().unwrap();
        }
    }
}
