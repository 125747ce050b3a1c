//! Types of the model: scalars, tables, enums, unions, and values of them.
use crate::rng::Rng;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum ST {
    Bool,
    U8,
    I8,
    U16,
    I16,
    U32,
    I32,
    U64,
    I64,
    F32,
    F64,
}
pub const ALL_ST: [ST; 11] = [
    ST::Bool,
    ST::U8,
    ST::I8,
    ST::U16,
    ST::I16,
    ST::U32,
    ST::I32,
    ST::U64,
    ST::I64,
    ST::F32,
    ST::F64,
];
pub const INT_ST: [ST; 8] = [
    ST::U8,
    ST::I8,
    ST::U16,
    ST::I16,
    ST::U32,
    ST::I32,
    ST::U64,
    ST::I64,
];

impl ST {
    pub fn size(self) -> usize {
        match self {
            ST::Bool | ST::U8 | ST::I8 => 1,
            ST::U16 | ST::I16 => 2,
            ST::U32 | ST::I32 | ST::F32 => 4,
            ST::U64 | ST::I64 | ST::F64 => 8,
        }
    }
    pub fn rust(self) -> &'static str {
        match self {
            ST::Bool => "bool",
            ST::U8 => "u8",
            ST::I8 => "i8",
            ST::U16 => "u16",
            ST::I16 => "i16",
            ST::U32 => "u32",
            ST::I32 => "i32",
            ST::U64 => "u64",
            ST::I64 => "i64",
            ST::F32 => "f32",
            ST::F64 => "f64",
        }
    }
    pub fn signed(self) -> bool {
        matches!(self, ST::I8 | ST::I16 | ST::I32 | ST::I64)
    }
    pub fn is_float(self) -> bool {
        matches!(self, ST::F32 | ST::F64)
    }
    pub fn min(self) -> i128 {
        match self {
            ST::I8 => i8::MIN as i128,
            ST::I16 => i16::MIN as i128,
            ST::I32 => i32::MIN as i128,
            ST::I64 => i64::MIN as i128,
            _ => 0,
        }
    }
    pub fn max(self) -> i128 {
        match self {
            ST::Bool => 1,
            ST::U8 => u8::MAX as i128,
            ST::U16 => u16::MAX as i128,
            ST::U32 => u32::MAX as i128,
            ST::U64 => u64::MAX as i128,
            ST::I8 => i8::MAX as i128,
            ST::I16 => i16::MAX as i128,
            ST::I32 => i32::MAX as i128,
            ST::I64 => i64::MAX as i128,
            _ => 0,
        }
    }
}

/// A scalar value: its little-endian bytes, zero-extended to 64 bits.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Sc {
    pub t: ST,
    pub bits: u64,
}

impl Sc {
    pub fn new(t: ST, bits: u64) -> Sc {
        let bits = match t {
            ST::Bool => bits & 1,
            _ => match t.size() {
                1 => bits & 0xff,
                2 => bits & 0xffff,
                4 => bits & 0xffff_ffff,
                _ => bits,
            },
        };
        Sc { t, bits }
    }
    pub fn zero(t: ST) -> Sc {
        Sc { t, bits: 0 }
    }
    pub fn int(t: ST, v: i128) -> Sc {
        Sc::new(t, v as u64)
    }
    pub fn as_int(self) -> i128 {
        match self.t {
            ST::I8 => self.bits as u8 as i8 as i128,
            ST::I16 => self.bits as u16 as i16 as i128,
            ST::I32 => self.bits as u32 as i32 as i128,
            ST::I64 => self.bits as i64 as i128,
            _ => self.bits as i128,
        }
    }
    pub fn f32(v: f32) -> Sc {
        Sc { t: ST::F32, bits: v.to_bits() as u64 }
    }
    pub fn f64(v: f64) -> Sc {
        Sc { t: ST::F64, bits: v.to_bits() }
    }
    pub fn to_f32(self) -> f32 {
        f32::from_bits(self.bits as u32)
    }
    pub fn to_f64(self) -> f64 {
        f64::from_bits(self.bits)
    }
    pub fn bytes(self) -> Vec<u8> {
        self.bits.to_le_bytes()[..self.t.size()].to_vec()
    }
    pub fn from_bytes(t: ST, b: &[u8]) -> Sc {
        let mut x = [0u8; 8];
        x[..t.size()].copy_from_slice(&b[..t.size()]);
        Sc { t, bits: u64::from_le_bytes(x) }
    }
    /// Numeric equality, the notion of "equal to the default" of the format:
    /// -0.0 equals 0.0 and a NaN equals nothing.
    pub fn num_eq(self, o: Sc) -> bool {
        match self.t {
            ST::F32 => self.to_f32() == o.to_f32(),
            ST::F64 => self.to_f64() == o.to_f64(),
            _ => self.bits == o.bits,
        }
    }
    pub fn is_nan(self) -> bool {
        match self.t {
            ST::F32 => self.to_f32().is_nan(),
            ST::F64 => self.to_f64().is_nan(),
            _ => false,
        }
    }
}

/// User-defined fixed-size structs the runtime harness writes: (size, align).
pub const STRUCTS: [(usize, usize); 5] = [(3, 1), (6, 2), (12, 4), (16, 8), (32, 16)];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    S(ST),
    Str,
    /// A zero-terminated byte vector that need not be UTF-8.
    Bytes,
    Struct(usize),
    Tab(usize),
    Enum(usize),
    Union(usize),
    Vec(Box<Ty>),
}

impl Ty {
    pub fn vec(t: Ty) -> Ty {
        Ty::Vec(Box::new(t))
    }
    /// Size of a value of this type inside a table or vector.
    pub fn inline_size(&self, env: &Env) -> usize {
        match self {
            Ty::S(t) => t.size(),
            Ty::Struct(k) => STRUCTS[*k].0,
            Ty::Enum(e) => env.enums[*e].base.size(),
            _ => 4,
        }
    }
    pub fn inline_align(&self, env: &Env) -> usize {
        match self {
            Ty::Struct(k) => STRUCTS[*k].1,
            _ => self.inline_size(env),
        }
    }
    pub fn is_ref(&self) -> bool {
        !matches!(self, Ty::S(_) | Ty::Struct(_) | Ty::Enum(_))
    }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    /// Byte position of the entry in the vtable (for a union: of its type;
    /// the value follows two bytes later).
    pub slot: u16,
    pub ty: Ty,
    /// Declared default (or zero for a non-enum scalar that declares none).
    pub default: Option<Sc>,
    pub required: bool,
}

#[derive(Clone, Debug, Default)]
pub struct TableT {
    pub ns: Vec<String>,
    pub name: String,
    pub fields: Vec<Field>,
}

#[derive(Clone, Debug)]
pub struct EnumT {
    pub ns: Vec<String>,
    pub name: String,
    pub base: ST,
    /// name, explicit value if written, effective value
    pub variants: Vec<(String, Option<i128>, i128)>,
}

#[derive(Clone, Debug)]
pub struct UnionT {
    pub ns: Vec<String>,
    pub name: String,
    /// table, explicit value if written, effective discriminant
    pub variants: Vec<(usize, Option<i128>, u8)>,
}

#[derive(Clone, Debug, Default)]
pub struct Env {
    pub tables: Vec<TableT>,
    pub enums: Vec<EnumT>,
    pub unions: Vec<UnionT>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Val {
    S(Sc),
    Str(Arc<String>),
    Bytes(Arc<Vec<u8>>),
    Struct(Vec<u8>),
    Tab(Arc<TVal>),
    /// variant index in the union, and the table
    Un(usize, Arc<TVal>),
    Vec(Arc<Vec<Val>>),
}

/// A table value: one entry per field of its type, None when absent.
#[derive(Clone, PartialEq, Debug)]
pub struct TVal {
    pub ty: usize,
    pub f: Vec<Option<Val>>,
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len().min(4000) * 2);
    for x in b.iter().take(4000) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 4000 {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

/// Interesting scalar values: extremes, neighbours of powers of two, random.
pub fn rand_scalar(r: &mut Rng, t: ST) -> Sc {
    if t.is_float() {
        let v = match r.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => 1.0,
            3 => f64::INFINITY,
            4 => f64::NEG_INFINITY,
            5 => return if t == ST::F32 { Sc::f32(f32::from_bits(0x7fc0_0000)) } else { Sc::f64(f64::NAN) },
            6 => return if t == ST::F32 { Sc::f32(f32::MAX) } else { Sc::f64(f64::MAX) },
            7 => return if t == ST::F32 { Sc::f32(f32::from_bits(1)) } else { Sc::f64(f64::from_bits(1)) },
            8 => r.u32() as i32 as f64,
            9 => (r.u32() as i32 as f64) / 1024.0,
            _ => return Sc::new(t, r.u64()),
        };
        return if t == ST::F32 { Sc::f32(v as f32) } else { Sc::f64(v) };
    }
    let bits = match r.below(10) {
        0 => 0,
        1 => u64::MAX,
        2 => 1,
        3 => return Sc::int(t, t.max()),
        4 => return Sc::int(t, t.min()),
        5 => 1u64 << r.below(t.size() * 8),
        6 => (1u64 << r.below(t.size() * 8)).wrapping_sub(1),
        7 => 0x0807_0605_0403_0201,
        _ => r.u64(),
    };
    Sc::new(t, bits)
}

/// Strings: empty, ASCII, multi-byte, embedded zero bytes, lengths around
/// alignment boundaries, sometimes long.
pub fn rand_string(r: &mut Rng) -> String {
    let n = match r.below(20) {
        0 => 0,
        1 if !cfg!(miri) => match r.below(150) {
            0 => r.range(65_400, 65_600),
            1..=6 => r.range(300, 9000),
            _ => r.range(60, 300),
        },
        _ => r.below(if cfg!(miri) { 7 } else { 13 }),
    };
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(12) {
            0 => '\u{0}',
            1 => 'é',
            2 => '漢',
            3 => '\u{10ffff}',
            4 => '\u{7f}',
            5 => '\n',
            _ => (b'a' + r.below(26) as u8) as char,
        };
        s.push(c);
    }
    s
}
