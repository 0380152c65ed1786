//! What the adapter to the code under test offers to the oracles.
use crate::model::*;
use crate::spec::Section;
use bytes::{Bytes, BytesMut};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum CErr {
    /// more bytes needed
    Need(usize),
    TooBig {
        pkt_size: usize,
        max: usize,
    },
    Utf8,
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub frame_len: usize,
    pub ptype: Result<u8, CErr>,
}

/// A decoded packet still in the crate's own representation.
pub trait Held: std::any::Any {
    fn model(&self) -> Pkt;
    /// serialise the crate's own value
    fn write(&self, out: &mut BytesMut) -> Result<usize, CErr>;
    /// the crate's own `==`
    fn same(&self, other: &dyn Held) -> bool;
    fn as_any(&self) -> &dyn std::any::Any;
    /// `Debug` of the crate's own value, plain and pretty
    fn shown(&self) -> [String; 2];
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Alloc {
    /// highest number of live bytes above the starting level
    pub peak: usize,
    /// largest single request
    pub single: usize,
    /// live bytes at the end, relative to the start
    pub live: isize,
}

/// `Sync`: C26 calls it from several threads.
pub type HdrArgs = (u8, usize, usize);

pub trait Codec: Sync {
    fn name(&self) -> &'static str;
    /// are text fields validated as UTF-8 in this configuration?
    fn text(&self) -> bool;

    fn read_held(&self, s: &mut BytesMut, max: Option<usize>) -> Result<Box<dyn Held>, CErr>;
    fn read(&self, s: &mut BytesMut, max: Option<usize>) -> Result<Pkt, CErr> {
        self.read_held(s, max).map(|h| h.model())
    }
    fn read_alloc(&self, s: &mut BytesMut, max: Option<usize>) -> (Result<Pkt, CErr>, Alloc);
    fn check(&self, b: &[u8], max: Option<usize>) -> Result<Hdr, CErr>;
    fn check_alloc(&self, b: &[u8], max: Option<usize>) -> (Result<usize, CErr>, Alloc);
    fn write(&self, p: &Pkt, out: &mut BytesMut) -> Result<usize, CErr>;
    /// length written and memory used, the conversion to the crate's types not counted
    fn write_alloc(&self, p: &Pkt) -> (Result<usize, CErr>, Alloc);
    /// memory used by and left over from everything `f` does in this thread
    fn balance(&self, f: &mut dyn FnMut()) -> Alloc;
    /// `Debug` of the native form, plain and pretty
    fn shown(&self, p: &Pkt) -> [String; 2];
    /// `Display` and `Debug` of the errors of reading and checking these bytes
    fn read_error(&self, b: &[u8], max: Option<usize>) -> Vec<(CErr, [String; 2])>;
    /// the same for writing
    fn write_error(&self, p: &Pkt) -> Option<(CErr, [String; 2])>;
    fn size(&self, p: &Pkt) -> Option<usize>;
    /// write `p`, read it back with the crate and compare with the crate's own `==`
    /// against the native form of `canon`; returns the leftover length
    fn native_eq(&self, p: &Pkt, canon: &Pkt) -> Result<(bool, usize), CErr>;

    /// the crate's own `==` between the native forms
    fn same(&self, a: &Pkt, b: &Pkt) -> bool;
    /// the same for a packet the crate decoded
    fn held_same(&self, a: &dyn Held, b: &Pkt) -> bool;
    /// model of a clone of the native form, and whether the two compare equal
    fn clone_of(&self, p: &Pkt) -> (Pkt, bool);

    fn typed_write(&self, p: &Pkt, out: &mut BytesMut) -> Result<usize, CErr>;
    /// per-type reader chosen by the type nibble; None if there is none
    fn typed_read(&self, frame: &[u8]) -> Option<Result<Pkt, CErr>>;
    /// None: no public writer for this section
    fn section_write(&self, s: Section, p: &[Prop], out: &mut BytesMut)
        -> Option<Result<(), CErr>>;
    fn section_read(&self, s: Section, b: &mut Bytes) -> Result<Props, CErr>;
    fn filters_read(&self, b: &mut Bytes) -> Result<Vec<Filt>, CErr>;
    fn filter_write(&self, f: &Filt, out: &mut BytesMut) -> Result<(), CErr>;
    fn will_read(&self, flags: u8, b: &mut Bytes) -> Result<Option<Will>, CErr>;
    fn will_write(&self, w: &Will, out: &mut BytesMut) -> Result<u8, CErr>;
    fn login_read(&self, flags: u8, b: &mut Bytes) -> Result<Option<(Bin, Bin)>, CErr>;
    fn login_write(&self, u: &Bin, p: &Bin, out: &mut BytesMut) -> Result<u8, CErr>;
    fn qos(&self, n: u8) -> Option<u8>;
    fn disconnect_code(&self, n: u8) -> Result<u8, CErr>;
    /// variants of the public enumerations that carry wire numbers, as
    /// (name, `as u8`, number the specification gives)
    fn numbers(&self) -> Vec<(String, u8, u8)>;
    /// the crate's own ordering of two quality of service levels
    fn qos_cmp(&self, a: u8, b: u8) -> Option<std::cmp::Ordering>;
    fn qos_default(&self) -> u8;
    /// What `FixedHeader::new` of the first byte, length of the length and remaining length tells.
    fn header(&self, h: HdrArgs) -> Hdr;
    /// `==` and `partial_cmp` of two headers made by hand.
    fn header_cmp(&self, a: HdrArgs, b: HdrArgs) -> (bool, Option<std::cmp::Ordering>);
    /// Does the check give the header that is made by hand of these?
    fn check_gives(&self, b: &[u8], h: HdrArgs) -> Result<bool, CErr>;
    /// packets built by the convenience constructors from the given ingredients,
    /// as (label, built, expected fields)
    fn constructors(&self, c: &CtorArgs) -> Vec<(&'static str, Pkt, Pkt)>;
    fn new_string(&self, s: &'static str) -> Bin;
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct CtorArgs {
    pub a: Bin,
    pub b: Bin,
    pub qos: u8,
    pub pkid: u16,
    pub code: u8,
    pub user: Option<Vec<(Bin, Bin)>>,
}
