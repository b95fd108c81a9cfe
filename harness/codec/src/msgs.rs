//! Independent, table-driven model of the message frames and its mapping to `Message` values.
use crate::conv::raw_value;
use aldrin_core::message::*;
use aldrin_core::*;
use uuid::Uuid;
use vp::wire;
use vp::Src;

/// Layout elements: varint, uuid, discriminant with the layout of each alternative.
pub enum L {
    U,
    I,
    D(&'static [&'static [L]]),
}
use L::*;

const E: &[L] = &[];
const END: L = D(&[E, E]);
const ENDCAP: L = D(&[E, &[U]]);
const OPTU: L = D(&[E, &[U]]);
const RES2: L = D(&[E, E]);
const RES3: L = D(&[E, E, E]);
const FILTER: L = D(&[E, &[I], E, &[I], &[I], &[I, I]]);

/// (name, carries a value, fields after it)
pub const KINDS: [(&str, bool, &[L]); 63] = [
    ("Connect", true, &[U]),
    ("ConnectReply", true, &[D(&[E, &[U], E])]),
    ("Shutdown", false, &[]),
    ("CreateObject", false, &[U, I]),
    ("CreateObjectReply", false, &[U, D(&[&[I], E])]),
    ("DestroyObject", false, &[U, I]),
    ("DestroyObjectReply", false, &[U, RES3]),
    ("CreateService", false, &[U, I, I, U]),
    ("CreateServiceReply", false, &[U, D(&[&[I], E, E, E])]),
    ("DestroyService", false, &[U, I]),
    ("DestroyServiceReply", false, &[U, RES3]),
    ("CallFunction", true, &[U, I, U]),
    ("CallFunctionReply", true, &[U, D(&[E, E, E, E, E, E])]),
    ("SubscribeEvent", false, &[OPTU, I, U]),
    ("SubscribeEventReply", false, &[U, RES2]),
    ("UnsubscribeEvent", false, &[I, U]),
    ("EmitEvent", true, &[I, U]),
    ("QueryServiceVersion", false, &[U, I]),
    ("QueryServiceVersionReply", false, &[U, D(&[&[U], E])]),
    ("CreateChannel", false, &[U, ENDCAP]),
    ("CreateChannelReply", false, &[U, I]),
    ("CloseChannelEnd", false, &[U, I, END]),
    ("CloseChannelEndReply", false, &[U, RES3]),
    ("ChannelEndClosed", false, &[I, END]),
    ("ClaimChannelEnd", false, &[U, I, ENDCAP]),
    ("ClaimChannelEndReply", false, &[U, D(&[&[U], E, E, E])]),
    ("ChannelEndClaimed", false, &[I, ENDCAP]),
    ("SendItem", true, &[I]),
    ("ItemReceived", true, &[I]),
    ("AddChannelCapacity", false, &[I, U]),
    ("Sync", false, &[U]),
    ("SyncReply", false, &[U]),
    ("ServiceDestroyed", false, &[I]),
    ("CreateBusListener", false, &[U]),
    ("CreateBusListenerReply", false, &[U, I]),
    ("DestroyBusListener", false, &[U, I]),
    ("DestroyBusListenerReply", false, &[U, RES2]),
    ("AddBusListenerFilter", false, &[I, FILTER]),
    ("RemoveBusListenerFilter", false, &[I, FILTER]),
    ("ClearBusListenerFilters", false, &[I]),
    ("StartBusListener", false, &[U, I, RES3]),
    ("StartBusListenerReply", false, &[U, RES3]),
    ("StopBusListener", false, &[U, I]),
    ("StopBusListenerReply", false, &[U, RES3]),
    ("EmitBusEvent", false, &[D(&[E, &[I]]), D(&[&[I, I], &[I, I], &[I, I, I, I], &[I, I, I, I]])]),
    ("BusListenerCurrentFinished", false, &[I]),
    ("Connect2", true, &[U, U]),
    ("ConnectReply2", true, &[D(&[&[U], E, E])]),
    ("AbortFunctionCall", false, &[U]),
    ("RegisterIntrospection", true, &[]),
    ("QueryIntrospection", false, &[U, I]),
    ("QueryIntrospectionReply", true, &[U, D(&[E, E])]),
    ("CreateService2", true, &[U, I, I]),
    ("QueryServiceInfo", false, &[U, I]),
    ("QueryServiceInfoReply", true, &[U, D(&[E, E])]),
    ("SubscribeService", false, &[U, I]),
    ("SubscribeServiceReply", false, &[U, RES2]),
    ("UnsubscribeService", false, &[I]),
    ("SubscribeAllEvents", false, &[OPTU, I]),
    ("SubscribeAllEventsReply", false, &[U, RES3]),
    ("UnsubscribeAllEvents", false, &[OPTU, I]),
    ("UnsubscribeAllEventsReply", false, &[U, RES3]),
    ("CallFunction2", true, &[U, I, U, OPTU]),
];

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum F {
    U(u32),
    I([u8; 16]),
    D(u8),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Frame {
    pub kind: u8,
    /// The bytes at the value's place (present in the frame even where the message ignores them).
    pub value: Option<Vec<u8>>,
    pub fields: Vec<F>,
}

impl Frame {
    /// The alternatives that ignore the value in their frame.
    pub fn value_ignored(&self) -> bool {
        let d = self.fields.iter().rev().find_map(|f| if let F::D(d) = f { Some(*d) } else { None });
        match self.kind {
            1 => d == Some(1),
            12 => d >= Some(2),
            51 | 54 => d == Some(1),
            _ => false,
        }
    }

    pub fn name(&self) -> &'static str {
        KINDS[self.kind as usize].0
    }
}

pub fn gen_u32(src: &mut Src) -> u32 {
    match src.us(4) {
        0 => src.below(4) as u32,
        1 => src.int(32) as u32,
        2 => {
            let b = *src.pick(&[251u32, 252, 255, 256, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000, 0x7fff_ffff, 0xffff_ffff]);
            b.wrapping_add(src.below(3) as u32).wrapping_sub(1)
        }
        _ => src.u64() as u32,
    }
}

fn gen_fields(src: &mut Src, l: &[L], out: &mut Vec<F>) {
    for x in l {
        match x {
            U => out.push(F::U(gen_u32(src))),
            I => out.push(F::I(wire::gen_uuid(src))),
            D(alts) => {
                let d = src.us(alts.len());
                out.push(F::D(d as u8));
                gen_fields(src, alts[d], out);
            }
        }
    }
}

pub fn gen_payload(src: &mut Src) -> Vec<u8> {
    match src.us(6) {
        0 => vec![0],
        1 | 2 => {
            let mut budget = 20;
            let d = src.range(1, 5);
            let n = wire::gen_value(src, d, &mut budget);
            wire::encode(src, &n, wire::Epoch::Mixed, false)
        }
        3 => {
            let n = 1 + src.small(20);
            src.bytes(n)
        }
        4 => {
            let n = src.range(1, 600);
            src.bulk(n)
        }
        _ => {
            let n = *src.pick(&[1usize, 7, 8, 9, 10, 64, 250, 255, 256, 257, 4096, 65535, 65536]);
            src.bulk(n)
        }
    }
}

pub fn gen_frame(src: &mut Src) -> Frame {
    let kind = src.us(63);
    gen_frame_of(src, kind)
}

pub fn gen_frame_of(src: &mut Src, kind: usize) -> Frame {
    let (_, has_value, l) = &KINDS[kind];
    let mut fields = Vec::new();
    gen_fields(src, l, &mut fields);
    let value = has_value.then(|| gen_payload(src));
    let mut f = Frame { kind: kind as u8, value, fields };
    if f.value_ignored() {
        f.value = Some(vec![0]);
    }
    f
}

/// All combinations of alternatives of a kind.
pub fn alternatives(kind: usize) -> Vec<Vec<u8>> {
    fn go(l: &[L], acc: &[Vec<u8>]) -> Vec<Vec<u8>> {
        let mut acc = acc.to_vec();
        for x in l {
            if let D(alts) = x {
                let mut next = Vec::new();
                for (d, a) in alts.iter().enumerate() {
                    let with: Vec<Vec<u8>> = acc
                        .iter()
                        .map(|p| {
                            let mut p = p.clone();
                            p.push(d as u8);
                            p
                        })
                        .collect();
                    next.extend(go(a, &with));
                }
                acc = next;
            }
        }
        acc
    }
    go(KINDS[kind].2, &[vec![]])
}

pub fn fields_with(kind: usize, alts: &[u8], mut u: impl FnMut() -> u32, mut id: impl FnMut() -> [u8; 16]) -> Vec<F> {
    fn go(l: &[L], alts: &mut &[u8], u: &mut dyn FnMut() -> u32, id: &mut dyn FnMut() -> [u8; 16], out: &mut Vec<F>) {
        for x in l {
            match x {
                U => out.push(F::U(u())),
                I => out.push(F::I(id())),
                D(a) => {
                    let d = alts[0];
                    *alts = &alts[1..];
                    out.push(F::D(d));
                    go(a[d as usize], alts, u, id, out);
                }
            }
        }
    }
    let mut out = Vec::new();
    let mut a = alts;
    go(KINDS[kind].2, &mut a, &mut u, &mut id, &mut out);
    out
}

pub fn encode(f: &Frame) -> Vec<u8> {
    let mut b = vec![0, 0, 0, 0, f.kind];
    if let Some(v) = &f.value {
        b.extend((v.len() as u32).to_le_bytes());
        b.extend_from_slice(v);
    }
    for x in &f.fields {
        match x {
            F::U(v) => wire::varint(&mut b, *v as u64, 4),
            F::I(u) => b.extend_from_slice(u),
            F::D(d) => b.push(*d),
        }
    }
    let n = b.len() as u32;
    b[..4].copy_from_slice(&n.to_le_bytes());
    b
}

/// Parses a frame; the flag says whether it is in canonical form.
pub fn parse(b: &[u8]) -> Result<(Frame, bool), &'static str> {
    if b.len() < 5 {
        return Err("short");
    }
    if u32::from_le_bytes(b[..4].try_into().unwrap()) as usize != b.len() {
        return Err("length prefix");
    }
    let kind = b[4];
    if kind > 62 {
        return Err("kind");
    }
    let (_, has_value, l) = &KINDS[kind as usize];
    let mut pos = 5;
    let value = if *has_value {
        if b.len() < 9 {
            return Err("short");
        }
        let n = u32::from_le_bytes(b[5..9].try_into().unwrap()) as usize;
        if n < 1 || n > b.len() - 9 {
            return Err("value length");
        }
        pos = 9 + n;
        Some(b[9..pos].to_vec())
    } else {
        None
    };
    fn go(b: &[u8], pos: &mut usize, l: &[L], out: &mut Vec<F>) -> Result<(), &'static str> {
        for x in l {
            match x {
                U => {
                    let mut d = wire::Dec::new(b, true);
                    d.pos = *pos;
                    out.push(F::U(d.varint(4).map_err(|_| "cut varint")? as u32));
                    *pos = d.pos;
                }
                I => {
                    let s = b.get(*pos..*pos + 16).ok_or("cut uuid")?;
                    out.push(F::I(s.try_into().unwrap()));
                    *pos += 16;
                }
                D(alts) => {
                    let d = *b.get(*pos).ok_or("cut discriminant")?;
                    *pos += 1;
                    let a = alts.get(d as usize).ok_or("discriminant")?;
                    out.push(F::D(d));
                    go(b, pos, a, out)?;
                }
            }
        }
        Ok(())
    }
    let mut fields = Vec::new();
    go(b, &mut pos, l, &mut fields)?;
    if pos != b.len() {
        return Err("trailing");
    }
    let f = Frame { kind, value, fields };
    let canonical = encode(&f) == b && (!f.value_ignored() || f.value.as_deref() == Some(&[0]));
    Ok((f, canonical))
}

struct R<'a>(&'a [F]);

impl R<'_> {
    fn next(&mut self) -> &F {
        let (a, b) = self.0.split_first().expect("field");
        self.0 = b;
        a
    }
    fn u(&mut self) -> u32 {
        match self.next() {
            F::U(v) => *v,
            f => panic!("{f:?}"),
        }
    }
    fn id(&mut self) -> Uuid {
        match self.next() {
            F::I(v) => Uuid::from_bytes(*v),
            f => panic!("{f:?}"),
        }
    }
    fn d(&mut self) -> u8 {
        match self.next() {
            F::D(v) => *v,
            f => panic!("{f:?}"),
        }
    }
    fn optu(&mut self) -> Option<u32> {
        (self.d() == 1).then(|| self.u())
    }
    fn end(&mut self) -> ChannelEnd {
        match self.d() {
            0 => ChannelEnd::Sender,
            _ => ChannelEnd::Receiver,
        }
    }
    fn endcap(&mut self) -> ChannelEndWithCapacity {
        match self.d() {
            0 => ChannelEndWithCapacity::Sender,
            _ => ChannelEndWithCapacity::Receiver(self.u()),
        }
    }
    fn oid(&mut self) -> ObjectId {
        let u = ObjectUuid(self.id());
        ObjectId::new(u, ObjectCookie(self.id()))
    }
    fn sid(&mut self) -> ServiceId {
        let o = self.oid();
        let u = ServiceUuid(self.id());
        ServiceId::new(o, u, ServiceCookie(self.id()))
    }
    fn filter(&mut self) -> BusListenerFilter {
        let f = |object, service| BusListenerFilter::Service(BusListenerServiceFilter { object, service });
        match self.d() {
            0 => BusListenerFilter::Object(None),
            1 => BusListenerFilter::Object(Some(ObjectUuid(self.id()))),
            2 => f(None, None),
            3 => f(Some(ObjectUuid(self.id())), None),
            4 => f(None, Some(ServiceUuid(self.id()))),
            _ => {
                let o = ObjectUuid(self.id());
                f(Some(o), Some(ServiceUuid(self.id())))
            }
        }
    }
}

/// The `Message` a frame means.
pub fn build(f: &Frame) -> Message {
    let mut r = R(&f.fields);
    let v = || raw_value(f.value.as_ref().expect("value"));
    macro_rules! m {
        ($k:ident { $($field:ident : $e:expr),* $(,)? }) => {{
            $(let $field = $e;)*
            Message::$k($k { $($field),* })
        }};
    }
    let m = match f.kind {
        0 => m!(Connect { version: r.u(), value: v() }),
        1 => Message::ConnectReply(match r.d() {
            0 => ConnectReply::Ok(v()),
            1 => ConnectReply::IncompatibleVersion(r.u()),
            _ => ConnectReply::Rejected(v()),
        }),
        2 => Message::Shutdown(Shutdown),
        3 => m!(CreateObject { serial: r.u(), uuid: ObjectUuid(r.id()) }),
        4 => m!(CreateObjectReply {
            serial: r.u(),
            result: match r.d() {
                0 => CreateObjectResult::Ok(ObjectCookie(r.id())),
                _ => CreateObjectResult::DuplicateObject,
            },
        }),
        5 => m!(DestroyObject { serial: r.u(), cookie: ObjectCookie(r.id()) }),
        6 => m!(DestroyObjectReply {
            serial: r.u(),
            result: match r.d() {
                0 => DestroyObjectResult::Ok,
                1 => DestroyObjectResult::InvalidObject,
                _ => DestroyObjectResult::ForeignObject,
            },
        }),
        7 => m!(CreateService { serial: r.u(), object_cookie: ObjectCookie(r.id()), uuid: ServiceUuid(r.id()), version: r.u() }),
        8 => m!(CreateServiceReply {
            serial: r.u(),
            result: match r.d() {
                0 => CreateServiceResult::Ok(ServiceCookie(r.id())),
                1 => CreateServiceResult::DuplicateService,
                2 => CreateServiceResult::InvalidObject,
                _ => CreateServiceResult::ForeignObject,
            },
        }),
        9 => m!(DestroyService { serial: r.u(), cookie: ServiceCookie(r.id()) }),
        10 => m!(DestroyServiceReply {
            serial: r.u(),
            result: match r.d() {
                0 => DestroyServiceResult::Ok,
                1 => DestroyServiceResult::InvalidService,
                _ => DestroyServiceResult::ForeignObject,
            },
        }),
        11 => m!(CallFunction { serial: r.u(), service_cookie: ServiceCookie(r.id()), function: r.u(), value: v() }),
        12 => m!(CallFunctionReply {
            serial: r.u(),
            result: match r.d() {
                0 => CallFunctionResult::Ok(v()),
                1 => CallFunctionResult::Err(v()),
                2 => CallFunctionResult::Aborted,
                3 => CallFunctionResult::InvalidService,
                4 => CallFunctionResult::InvalidFunction,
                _ => CallFunctionResult::InvalidArgs,
            },
        }),
        13 => m!(SubscribeEvent { serial: r.optu(), service_cookie: ServiceCookie(r.id()), event: r.u() }),
        14 => m!(SubscribeEventReply {
            serial: r.u(),
            result: match r.d() {
                0 => SubscribeEventResult::Ok,
                _ => SubscribeEventResult::InvalidService,
            },
        }),
        15 => m!(UnsubscribeEvent { service_cookie: ServiceCookie(r.id()), event: r.u() }),
        16 => m!(EmitEvent { service_cookie: ServiceCookie(r.id()), event: r.u(), value: v() }),
        17 => m!(QueryServiceVersion { serial: r.u(), cookie: ServiceCookie(r.id()) }),
        18 => m!(QueryServiceVersionReply {
            serial: r.u(),
            result: match r.d() {
                0 => QueryServiceVersionResult::Ok(r.u()),
                _ => QueryServiceVersionResult::InvalidService,
            },
        }),
        19 => m!(CreateChannel { serial: r.u(), end: r.endcap() }),
        20 => m!(CreateChannelReply { serial: r.u(), cookie: ChannelCookie(r.id()) }),
        21 => m!(CloseChannelEnd { serial: r.u(), cookie: ChannelCookie(r.id()), end: r.end() }),
        22 => m!(CloseChannelEndReply {
            serial: r.u(),
            result: match r.d() {
                0 => CloseChannelEndResult::Ok,
                1 => CloseChannelEndResult::InvalidChannel,
                _ => CloseChannelEndResult::ForeignChannel,
            },
        }),
        23 => m!(ChannelEndClosed { cookie: ChannelCookie(r.id()), end: r.end() }),
        24 => m!(ClaimChannelEnd { serial: r.u(), cookie: ChannelCookie(r.id()), end: r.endcap() }),
        25 => m!(ClaimChannelEndReply {
            serial: r.u(),
            result: match r.d() {
                0 => ClaimChannelEndResult::SenderClaimed(r.u()),
                1 => ClaimChannelEndResult::ReceiverClaimed,
                2 => ClaimChannelEndResult::InvalidChannel,
                _ => ClaimChannelEndResult::AlreadyClaimed,
            },
        }),
        26 => m!(ChannelEndClaimed { cookie: ChannelCookie(r.id()), end: r.endcap() }),
        27 => m!(SendItem { cookie: ChannelCookie(r.id()), value: v() }),
        28 => m!(ItemReceived { cookie: ChannelCookie(r.id()), value: v() }),
        29 => m!(AddChannelCapacity { cookie: ChannelCookie(r.id()), capacity: r.u() }),
        30 => m!(Sync { serial: r.u() }),
        31 => m!(SyncReply { serial: r.u() }),
        32 => m!(ServiceDestroyed { service_cookie: ServiceCookie(r.id()) }),
        33 => m!(CreateBusListener { serial: r.u() }),
        34 => m!(CreateBusListenerReply { serial: r.u(), cookie: BusListenerCookie(r.id()) }),
        35 => m!(DestroyBusListener { serial: r.u(), cookie: BusListenerCookie(r.id()) }),
        36 => m!(DestroyBusListenerReply {
            serial: r.u(),
            result: match r.d() {
                0 => DestroyBusListenerResult::Ok,
                _ => DestroyBusListenerResult::InvalidBusListener,
            },
        }),
        37 => m!(AddBusListenerFilter { cookie: BusListenerCookie(r.id()), filter: r.filter() }),
        38 => m!(RemoveBusListenerFilter { cookie: BusListenerCookie(r.id()), filter: r.filter() }),
        39 => m!(ClearBusListenerFilters { cookie: BusListenerCookie(r.id()) }),
        40 => m!(StartBusListener {
            serial: r.u(),
            cookie: BusListenerCookie(r.id()),
            scope: match r.d() {
                0 => BusListenerScope::Current,
                1 => BusListenerScope::New,
                _ => BusListenerScope::All,
            },
        }),
        41 => m!(StartBusListenerReply {
            serial: r.u(),
            result: match r.d() {
                0 => StartBusListenerResult::Ok,
                1 => StartBusListenerResult::InvalidBusListener,
                _ => StartBusListenerResult::AlreadyStarted,
            },
        }),
        42 => m!(StopBusListener { serial: r.u(), cookie: BusListenerCookie(r.id()) }),
        43 => m!(StopBusListenerReply {
            serial: r.u(),
            result: match r.d() {
                0 => StopBusListenerResult::Ok,
                1 => StopBusListenerResult::InvalidBusListener,
                _ => StopBusListenerResult::NotStarted,
            },
        }),
        44 => m!(EmitBusEvent {
            cookie: if r.d() == 1 { Some(BusListenerCookie(r.id())) } else { None },
            event: match r.d() {
                0 => BusEvent::ObjectCreated(r.oid()),
                1 => BusEvent::ObjectDestroyed(r.oid()),
                2 => BusEvent::ServiceCreated(r.sid()),
                _ => BusEvent::ServiceDestroyed(r.sid()),
            },
        }),
        45 => m!(BusListenerCurrentFinished { cookie: BusListenerCookie(r.id()) }),
        46 => m!(Connect2 { major_version: r.u(), minor_version: r.u(), value: v() }),
        47 => m!(ConnectReply2 {
            result: match r.d() {
                0 => ConnectResult::Ok(r.u()),
                1 => ConnectResult::Rejected,
                _ => ConnectResult::IncompatibleVersion,
            },
            value: v(),
        }),
        48 => m!(AbortFunctionCall { serial: r.u() }),
        49 => m!(RegisterIntrospection { value: v() }),
        50 => m!(QueryIntrospection { serial: r.u(), type_id: TypeId(r.id()) }),
        51 => m!(QueryIntrospectionReply {
            serial: r.u(),
            result: match r.d() {
                0 => QueryIntrospectionResult::Ok(v()),
                _ => QueryIntrospectionResult::Unavailable,
            },
        }),
        52 => m!(CreateService2 { serial: r.u(), object_cookie: ObjectCookie(r.id()), uuid: ServiceUuid(r.id()), value: v() }),
        53 => m!(QueryServiceInfo { serial: r.u(), cookie: ServiceCookie(r.id()) }),
        54 => m!(QueryServiceInfoReply {
            serial: r.u(),
            result: match r.d() {
                0 => QueryServiceInfoResult::Ok(v()),
                _ => QueryServiceInfoResult::InvalidService,
            },
        }),
        55 => m!(SubscribeService { serial: r.u(), service_cookie: ServiceCookie(r.id()) }),
        56 => m!(SubscribeServiceReply {
            serial: r.u(),
            result: match r.d() {
                0 => SubscribeServiceResult::Ok,
                _ => SubscribeServiceResult::InvalidService,
            },
        }),
        57 => m!(UnsubscribeService { service_cookie: ServiceCookie(r.id()) }),
        58 => m!(SubscribeAllEvents { serial: r.optu(), service_cookie: ServiceCookie(r.id()) }),
        59 => m!(SubscribeAllEventsReply {
            serial: r.u(),
            result: match r.d() {
                0 => SubscribeAllEventsResult::Ok,
                1 => SubscribeAllEventsResult::InvalidService,
                _ => SubscribeAllEventsResult::NotSupported,
            },
        }),
        60 => m!(UnsubscribeAllEvents { serial: r.optu(), service_cookie: ServiceCookie(r.id()) }),
        61 => m!(UnsubscribeAllEventsReply {
            serial: r.u(),
            result: match r.d() {
                0 => UnsubscribeAllEventsResult::Ok,
                1 => UnsubscribeAllEventsResult::InvalidService,
                _ => UnsubscribeAllEventsResult::NotSupported,
            },
        }),
        _ => m!(CallFunction2 { serial: r.u(), service_cookie: ServiceCookie(r.id()), function: r.u(), version: r.optu(), value: v() }),
    };
    assert!(r.0.is_empty(), "unused fields");
    m
}
