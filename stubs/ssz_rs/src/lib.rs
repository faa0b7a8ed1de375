//! Stand-in for the `ssz_rs` dependency of ethereum-consensus (a git dependency that is not
//! available offline).  It implements the SimpleSerialize encoding and Merkleization rules over
//! the same surface types.  SHA-256 is reached through `__sym_sha256`, which the symbolic executor
//! models as an uninterpreted function (and evaluates on concrete inputs) and which the native
//! replay runtime implements.
use core::fmt;
use core::ops::{Deref, DerefMut, Index, IndexMut};
use std::slice::SliceIndex;

pub use ssz_rs_derive::{Deserialize, HashTreeRoot, Serializable, Serialize, SimpleSerialize};
extern crate self as ssz_rs;

extern "C" {
    fn __sym_sha256(data: *const u8, len: usize, out: *mut u8);
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    unsafe { __sym_sha256(data.as_ptr(), data.len(), out.as_mut_ptr()) };
    out
}

// ---------------------------------------------------------------- errors
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum InstanceError {
    Exact { required: usize, provided: usize },
    Bounded { bound: usize, provided: usize },
}
impl fmt::Display for InstanceError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Exact { required, provided } => {
                write!(f, "required {required} elements but {provided} were given")
            }
            Self::Bounded { bound, provided } => {
                write!(f, "bound {bound} elements but {provided} were given")
            }
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TypeBoundsError {
    Invalid(usize),
}
impl fmt::Display for TypeBoundsError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid type bounds")
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum SerializeError {
    MaximumEncodedLengthExceeded(usize),
    InvalidInstance(InstanceError),
    InvalidType(TypeBoundsError),
}
impl fmt::Display for SerializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("serialize error")
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DeserializeError {
    ExpectedFurtherInput { provided: usize, expected: usize },
    AdditionalInput { provided: usize, expected: usize },
    InvalidByte(u8),
    InvalidOffsetsLength(usize),
    OffsetNotIncreasing { start: usize, end: usize },
    InvalidInstance(InstanceError),
    InvalidType(TypeBoundsError),
}
impl fmt::Display for DeserializeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::ExpectedFurtherInput { provided, expected } => {
                write!(f, "expected at least {expected} bytes when deserializing but only {provided} were provided")
            }
            Self::AdditionalInput { provided, expected } => {
                write!(f, "{provided} bytes given but expected {expected}")
            }
            _ => f.write_str("deserialize error"),
        }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MerkleizationError {
    InvalidInstance(InstanceError),
    InvalidType(TypeBoundsError),
    InputExceedsLimit(usize),
    InvalidGeneralizedIndex,
    InvalidPathElement,
    InvalidPath,
    InvalidProof,
    InvalidDepth,
    NoInnerElement,
    Ser(SerializeError),
}
impl fmt::Display for MerkleizationError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("merkleization error")
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    Serialize(SerializeError),
    Deserialize(DeserializeError),
    Merkleization(MerkleizationError),
    Instance(InstanceError),
    Type(TypeBoundsError),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Deserialize(e) => write!(f, "{e}"),
            Self::Instance(e) => write!(f, "{e}"),
            _ => f.write_str("ssz error"),
        }
    }
}
macro_rules! err_conv {
    ($($from:ident => $to:ident :: $v:ident),* $(,)?) => { $(
        impl From<$from> for $to { fn from(e: $from) -> Self { Self::$v(e) } }
    )* };
}
err_conv!(
    InstanceError => SerializeError::InvalidInstance, TypeBoundsError => SerializeError::InvalidType,
    InstanceError => DeserializeError::InvalidInstance, TypeBoundsError => DeserializeError::InvalidType,
    InstanceError => MerkleizationError::InvalidInstance, TypeBoundsError => MerkleizationError::InvalidType,
    SerializeError => MerkleizationError::Ser,
    SerializeError => Error::Serialize, DeserializeError => Error::Deserialize,
    MerkleizationError => Error::Merkleization, InstanceError => Error::Instance, TypeBoundsError => Error::Type,
);
impl std::error::Error for InstanceError {}
impl std::error::Error for TypeBoundsError {}
impl std::error::Error for SerializeError {}
impl std::error::Error for DeserializeError {}
impl std::error::Error for MerkleizationError {}
impl std::error::Error for Error {}

// ---------------------------------------------------------------- traits
pub trait Serializable {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}
pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>
    where
        Self: Sized;
}
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    fn is_composite_type() -> bool
    where
        Self: Sized,
    {
        true
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Field(String),
    Index(usize),
    Length,
    Selector,
}
impl From<&str> for PathElement {
    fn from(v: &str) -> Self {
        Self::Field(v.to_string())
    }
}
impl From<usize> for PathElement {
    fn from(v: usize) -> Self {
        Self::Index(v)
    }
}
pub type Path<'a> = &'a [PathElement];
pub type GeneralizedIndex = usize;
pub trait GeneralizedIndexable {
    fn chunk_count() -> usize {
        1
    }
    fn compute_generalized_index(
        parent: GeneralizedIndex,
        path: Path,
    ) -> Result<GeneralizedIndex, MerkleizationError> {
        if path.is_empty() {
            Ok(parent)
        } else {
            Err(MerkleizationError::InvalidPath)
        }
    }
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
}
pub trait Prove: GeneralizedIndexable {}
pub trait SimpleSerialize:
    Serializable + Serialize + Deserialize + HashTreeRoot + GeneralizedIndexable + Prove + Sized
{
}

pub fn serialize<T: Serialize>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut v = vec![];
    value.serialize(&mut v)?;
    Ok(v)
}
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

impl<T: Serializable> Serializable for &T {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint()
    }
}
impl<T: Serializable> Serializable for &mut T {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint()
    }
}
impl<T: Serialize> Serialize for &T {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        (**self).serialize(b)
    }
}
impl<T: Serialize> Serialize for &mut T {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        (**self).serialize(b)
    }
}
impl<T: HashTreeRoot> HashTreeRoot for &T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        T::is_composite_type()
    }
}
impl<T: HashTreeRoot> HashTreeRoot for &mut T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        T::is_composite_type()
    }
}

// ---------------------------------------------------------------- basic types
macro_rules! basic_uint {
    ($($t:ty),*) => { $(
        impl Serializable for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { core::mem::size_of::<$t>() }
        }
        impl Serialize for $t {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                b.extend_from_slice(&self.to_le_bytes());
                Ok(core::mem::size_of::<$t>())
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                let n = core::mem::size_of::<$t>();
                __internal::exact(e, n)?;
                let mut buf = [0u8; core::mem::size_of::<$t>()];
                buf.copy_from_slice(e);
                Ok(<$t>::from_le_bytes(buf))
            }
        }
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let mut out = [0u8; 32];
                out[..core::mem::size_of::<$t>()].copy_from_slice(&self.to_le_bytes());
                Ok(Node(out))
            }
            fn is_composite_type() -> bool { false }
        }
        impl GeneralizedIndexable for $t {}
        impl Prove for $t {}
        impl SimpleSerialize for $t {}
    )* };
}
basic_uint!(u8, u16, u32, u64, u128, usize);

impl Serializable for bool {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
}
impl Serialize for bool {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.push(*self as u8);
        Ok(1)
    }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        __internal::exact(e, 1)?;
        match e[0] {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(DeserializeError::InvalidByte(b)),
        }
    }
}
impl HashTreeRoot for bool {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let mut out = [0u8; 32];
        out[0] = *self as u8;
        Ok(Node(out))
    }
    fn is_composite_type() -> bool {
        false
    }
}
impl GeneralizedIndexable for bool {}
impl Prove for bool {}
impl SimpleSerialize for bool {}

impl<T: SimpleSerialize, const N: usize> Serializable for [T; N] {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint() * N
    }
}
impl<T: SimpleSerialize, const N: usize> Serialize for [T; N] {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        __internal::serialize_seq(self, b)
    }
}
impl<T: SimpleSerialize + Default + Copy, const N: usize> Deserialize for [T; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v: Vec<T> = __internal::deserialize_seq(e)?;
        if v.len() != N {
            return Err(InstanceError::Exact { required: N, provided: v.len() }.into());
        }
        let mut out = [T::default(); N];
        out.copy_from_slice(&v);
        Ok(out)
    }
}
impl<T: SimpleSerialize, const N: usize> HashTreeRoot for [T; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        __internal::root_of_seq(self, None)
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for [T; N] {
    fn chunk_count() -> usize {
        __internal::chunks_for::<T>(N)
    }
}
impl<T: SimpleSerialize + Default + Copy, const N: usize> Prove for [T; N] {}
impl<T: SimpleSerialize + Default + Copy, const N: usize> SimpleSerialize for [T; N] {}

// ---------------------------------------------------------------- Node
#[derive(Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(transparent)]
pub struct Node(pub [u8; 32]);
impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:#x}")
    }
}
impl fmt::Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:#x}")
    }
}
impl fmt::LowerHex for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            f.write_str("0x")?;
        }
        for b in self.0 {
            write!(f, "{b:02x}")?;
        }
        Ok(())
    }
}
impl Deref for Node {
    type Target = [u8; 32];
    fn deref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl DerefMut for Node {
    fn deref_mut(&mut self) -> &mut [u8; 32] {
        &mut self.0
    }
}
impl AsRef<[u8]> for Node {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Node {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<[u8; 32]> for Node {
    fn from(v: [u8; 32]) -> Self {
        Self(v)
    }
}
impl TryFrom<&[u8]> for Node {
    type Error = DeserializeError;
    fn try_from(v: &[u8]) -> Result<Self, Self::Error> {
        <Self as Deserialize>::deserialize(v)
    }
}
impl Node {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn new(v: [u8; 32]) -> Self {
        Self(v)
    }
}
impl PartialEq<[u8; 32]> for Node {
    fn eq(&self, o: &[u8; 32]) -> bool {
        &self.0 == o
    }
}
impl Serializable for Node {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for Node {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.0);
        Ok(32)
    }
}
impl Deserialize for Node {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        __internal::exact(e, 32)?;
        let mut out = [0u8; 32];
        out.copy_from_slice(e);
        Ok(Node(out))
    }
}
impl HashTreeRoot for Node {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(*self)
    }
}
impl GeneralizedIndexable for Node {}
impl Prove for Node {}
impl SimpleSerialize for Node {}
impl serde::Serialize for Node {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format!("0x{}", hex::encode(self.0)))
    }
}
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = __internal::hex_bytes(d)?;
        Node::try_from(v.as_slice()).map_err(serde::de::Error::custom)
    }
}

// ---------------------------------------------------------------- U256
#[derive(Default, Clone, Copy, PartialEq, Eq, Hash)]
pub struct U256([u64; 4]);
impl U256 {
    pub const ZERO: U256 = U256([0; 4]);
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn zero() -> Self {
        Self::ZERO
    }
    pub fn new() -> Self {
        Self::ZERO
    }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        let mut o = [0u64; 4];
        for i in 0..4 {
            let mut t = [0u8; 8];
            t.copy_from_slice(&b[8 * i..8 * i + 8]);
            o[i] = u64::from_le_bytes(t);
        }
        U256(o)
    }
    pub fn try_from_bytes_le(b: &[u8]) -> Result<Self, DeserializeError> {
        <Self as Deserialize>::deserialize(b)
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
    pub fn as_le_bytes(&self) -> [u8; 32] {
        self.to_le_bytes()
    }
    pub fn to_le_bytes(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for i in 0..4 {
            o[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        o
    }
    fn div_small(&mut self, d: u64) -> u64 {
        let mut r = 0u128;
        for i in (0..4).rev() {
            let cur = (r << 64) | self.0[i] as u128;
            self.0[i] = (cur / d as u128) as u64;
            r = cur % d as u128;
        }
        r as u64
    }
}
impl From<u64> for U256 {
    fn from(v: u64) -> Self {
        U256([v, 0, 0, 0])
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        for i in (0..4).rev() {
            let c = self.0[i].cmp(&o.0[i]);
            if c != core::cmp::Ordering::Equal {
                return c;
            }
        }
        core::cmp::Ordering::Equal
    }
}
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut digits = vec![];
        let mut t = *self;
        loop {
            digits.push(b'0' + t.div_small(10) as u8);
            if t == Self::ZERO {
                break;
            }
        }
        digits.reverse();
        f.write_str(core::str::from_utf8(&digits).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}")
    }
}
#[derive(Debug)]
pub struct ParseU256Error;
impl fmt::Display for ParseU256Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("invalid integer")
    }
}
impl std::str::FromStr for U256 {
    type Err = ParseU256Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut r = [0u64; 4];
        for c in s.bytes() {
            if !c.is_ascii_digit() {
                return Err(ParseU256Error);
            }
            let mut carry = (c - b'0') as u128;
            for limb in r.iter_mut() {
                let t = *limb as u128 * 10 + carry;
                *limb = t as u64;
                carry = t >> 64;
            }
            if carry != 0 {
                return Err(ParseU256Error);
            }
        }
        Ok(U256(r))
    }
}
impl Serializable for U256 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for U256 {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.to_le_bytes());
        Ok(32)
    }
}
impl Deserialize for U256 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        __internal::exact(e, 32)?;
        let mut o = [0u8; 32];
        o.copy_from_slice(e);
        Ok(Self::from_le_bytes(o))
    }
}
impl HashTreeRoot for U256 {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(Node(self.to_le_bytes()))
    }
    fn is_composite_type() -> bool {
        false
    }
}
impl GeneralizedIndexable for U256 {}
impl Prove for U256 {}
impl SimpleSerialize for U256 {}
impl serde::Serialize for U256 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for U256 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

// ---------------------------------------------------------------- List / Vector
macro_rules! seq_common {
    ($name:ident) => {
        impl<T, const N: usize> Deref for $name<T, N> {
            type Target = Vec<T>;
            fn deref(&self) -> &Vec<T> {
                &self.data
            }
        }
        impl<T, const N: usize> DerefMut for $name<T, N> {
            fn deref_mut(&mut self) -> &mut Vec<T> {
                &mut self.data
            }
        }
        impl<T, const N: usize> AsRef<[T]> for $name<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.data
            }
        }
        impl<T, const N: usize> AsMut<[T]> for $name<T, N> {
            fn as_mut(&mut self) -> &mut [T] {
                &mut self.data
            }
        }
        impl<T: fmt::Debug, const N: usize> fmt::Debug for $name<T, N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_list().entries(self.data.iter()).finish()
            }
        }
        impl<T: PartialEq, const N: usize> PartialEq for $name<T, N> {
            fn eq(&self, o: &Self) -> bool {
                self.data == o.data
            }
        }
        impl<T: Eq, const N: usize> Eq for $name<T, N> {}
        impl<T: PartialOrd, const N: usize> PartialOrd for $name<T, N> {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                self.data.partial_cmp(&o.data)
            }
        }
        impl<T: Ord, const N: usize> Ord for $name<T, N> {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                self.data.cmp(&o.data)
            }
        }
        impl<T: core::hash::Hash, const N: usize> core::hash::Hash for $name<T, N> {
            fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
                self.data.hash(h)
            }
        }
        impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for $name<T, N> {
            type Output = I::Output;
            fn index(&self, i: I) -> &Self::Output {
                &self.data[i]
            }
        }
        impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for $name<T, N> {
            fn index_mut(&mut self, i: I) -> &mut Self::Output {
                &mut self.data[i]
            }
        }
        impl<T, const N: usize> IntoIterator for $name<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.into_iter()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $name<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.iter()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a mut $name<T, N> {
            type Item = &'a mut T;
            type IntoIter = std::slice::IterMut<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.iter_mut()
            }
        }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $name<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_seq(self.data.iter())
            }
        }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for $name<T, N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v: Vec<T> = serde::Deserialize::deserialize(d)?;
                Self::try_from(v).map_err(|(_, e)| serde::de::Error::custom(e))
            }
        }
        impl<T: SimpleSerialize, const N: usize> Serialize for $name<T, N> {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                __internal::serialize_seq(&self.data, b)
            }
        }
        impl<T: SimpleSerialize, const N: usize> Prove for $name<T, N> {}
        impl<T: SimpleSerialize, const N: usize> SimpleSerialize for $name<T, N> {}
    };
}

#[derive(Clone)]
pub struct List<T, const N: usize> {
    data: Vec<T>,
}
#[derive(Clone)]
pub struct Vector<T, const N: usize> {
    data: Vec<T>,
}
seq_common!(List);
seq_common!(Vector);

impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        List { data: Vec::new() }
    }
}
impl<T: Default + Clone, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Vector { data: vec![T::default(); N] }
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, Error);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() > N {
            let e = InstanceError::Bounded { bound: N, provided: data.len() };
            Err((data, e.into()))
        } else {
            Ok(List { data })
        }
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, Error);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() != N {
            let e = InstanceError::Exact { required: N, provided: data.len() };
            Err((data, e.into()))
        } else {
            Ok(Vector { data })
        }
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for List<T, N> {
    type Error = Error;
    fn try_from(d: &[T]) -> Result<Self, Error> {
        Self::try_from(d.to_vec()).map_err(|(_, e)| e)
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for Vector<T, N> {
    type Error = Error;
    fn try_from(d: &[T]) -> Result<Self, Error> {
        Self::try_from(d.to_vec()).map_err(|(_, e)| e)
    }
}
impl<T, const N: usize> FromIterator<T> for List<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        List { data: i.into_iter().collect() }
    }
}
impl<T: SimpleSerialize, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: SimpleSerialize, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        T::size_hint() * N
    }
}
impl<T: SimpleSerialize, const N: usize> Deserialize for List<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v: Vec<T> = __internal::deserialize_seq(e)?;
        if v.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: v.len() }.into());
        }
        Ok(List { data: v })
    }
}
impl<T: SimpleSerialize, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if !T::is_variable_size() {
            __internal::exact(e, N * T::size_hint())?;
        }
        let v: Vec<T> = __internal::deserialize_seq(e)?;
        if v.len() != N {
            return Err(InstanceError::Exact { required: N, provided: v.len() }.into());
        }
        Ok(Vector { data: v })
    }
}
impl<T: SimpleSerialize, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let root = __internal::root_of_seq(&self.data, Some(__internal::chunks_for::<T>(N)))?;
        Ok(__internal::mix_in(root, self.data.len()))
    }
}
impl<T: SimpleSerialize, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        __internal::root_of_seq(&self.data, Some(__internal::chunks_for::<T>(N)))
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for List<T, N> {
    fn chunk_count() -> usize {
        __internal::chunks_for::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        let Some((next, rest)) = path.split_first() else { return Ok(parent) };
        match next {
            PathElement::Index(i) => {
                if *i >= N {
                    return Err(MerkleizationError::InvalidPathElement);
                }
                let c = Self::chunk_count();
                let pos = if T::is_composite_type() { *i } else { i * T::size_hint() / 32 };
                T::compute_generalized_index(parent * 2 * c.next_power_of_two() + pos, rest)
            }
            PathElement::Length => Ok(parent * 2 + 1),
            _ => Err(MerkleizationError::InvalidPathElement),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn chunk_count() -> usize {
        __internal::chunks_for::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        let Some((next, rest)) = path.split_first() else { return Ok(parent) };
        match next {
            PathElement::Index(i) => {
                if *i >= N {
                    return Err(MerkleizationError::InvalidPathElement);
                }
                let c = Self::chunk_count();
                let pos = if T::is_composite_type() { *i } else { i * T::size_hint() / 32 };
                T::compute_generalized_index(parent * c.next_power_of_two() + pos, rest)
            }
            _ => Err(MerkleizationError::InvalidPathElement),
        }
    }
}

// ---------------------------------------------------------------- Bitlist / Bitvector
#[derive(Clone, PartialEq, Eq, Default)]
pub struct Bitlist<const N: usize> {
    data: Vec<bool>,
}
#[derive(Clone, PartialEq, Eq)]
pub struct Bitvector<const N: usize> {
    data: Vec<bool>,
}
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Bitvector { data: vec![false; N] }
    }
}
/// The subset of `bitvec::BitSlice` that callers use on bitfields.
pub struct BitSlice([bool]);
impl BitSlice {
    fn new(s: &[bool]) -> &BitSlice {
        // SAFETY: single-field unsized wrapper
        unsafe { &*(s as *const [bool] as *const BitSlice) }
    }
    fn new_mut(s: &mut [bool]) -> &mut BitSlice {
        unsafe { &mut *(s as *mut [bool] as *mut BitSlice) }
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get(&self, i: usize) -> Option<&bool> {
        self.0.get(i)
    }
    pub fn set(&mut self, i: usize, v: bool) {
        self.0[i] = v
    }
    pub fn replace(&mut self, i: usize, v: bool) -> bool {
        core::mem::replace(&mut self.0[i], v)
    }
    pub fn fill(&mut self, v: bool) {
        self.0.fill(v)
    }
    pub fn any(&self) -> bool {
        self.0.iter().any(|b| *b)
    }
    pub fn all(&self) -> bool {
        self.0.iter().all(|b| *b)
    }
    pub fn not_any(&self) -> bool {
        !self.any()
    }
    pub fn count_ones(&self) -> usize {
        let mut n = 0usize;
        for b in &self.0 {
            n += *b as usize;
        }
        n
    }
    pub fn count_zeros(&self) -> usize {
        self.0.len() - self.count_ones()
    }
    pub fn iter(&self) -> BitIter<'_> {
        BitIter(self.0.iter())
    }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, bool> {
        self.0.iter_mut()
    }
    pub fn iter_ones(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().filter_map(|(i, b)| b.then_some(i))
    }
    pub fn first(&self) -> Option<&bool> {
        self.0.first()
    }
    pub fn last(&self) -> Option<&bool> {
        self.0.last()
    }
    pub fn copy_within<R: core::ops::RangeBounds<usize>>(&mut self, r: R, dest: usize) {
        self.0.copy_within(r, dest)
    }
    pub fn shift_right(&mut self, n: usize) {
        let len = self.0.len();
        for i in (0..len).rev() {
            self.0[i] = if i >= n { self.0[i - n] } else { false };
        }
    }
    pub fn shift_left(&mut self, n: usize) {
        let len = self.0.len();
        for i in 0..len {
            self.0[i] = if i + n < len { self.0[i + n] } else { false };
        }
    }
    pub fn rotate_right(&mut self, n: usize) {
        self.0.rotate_right(n)
    }
    pub fn rotate_left(&mut self, n: usize) {
        self.0.rotate_left(n)
    }
}
#[derive(Clone)]
pub struct BitIter<'a>(std::slice::Iter<'a, bool>);
impl<'a> BitIter<'a> {
    pub fn by_vals(self) -> core::iter::Copied<std::slice::Iter<'a, bool>> {
        self.0.copied()
    }
    pub fn by_refs(self) -> std::slice::Iter<'a, bool> {
        self.0
    }
}
impl<'a> Iterator for BitIter<'a> {
    type Item = &'a bool;
    fn next(&mut self) -> Option<&'a bool> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl DoubleEndedIterator for BitIter<'_> {
    fn next_back(&mut self) -> Option<Self::Item> {
        self.0.next_back()
    }
}
impl ExactSizeIterator for BitIter<'_> {}
pub trait BitIndex {
    type Out: ?Sized;
    fn at(self, s: &[bool]) -> &Self::Out;
    fn at_mut(self, s: &mut [bool]) -> &mut Self::Out;
}
impl BitIndex for usize {
    type Out = bool;
    fn at(self, s: &[bool]) -> &bool {
        &s[self]
    }
    fn at_mut(self, s: &mut [bool]) -> &mut bool {
        &mut s[self]
    }
}
macro_rules! bit_range {
    ($($t:ty),*) => { $(
        impl BitIndex for $t {
            type Out = BitSlice;
            fn at(self, s: &[bool]) -> &BitSlice { BitSlice::new(&s[self]) }
            fn at_mut(self, s: &mut [bool]) -> &mut BitSlice { BitSlice::new_mut(&mut s[self]) }
        }
    )* };
}
bit_range!(
    core::ops::Range<usize>,
    core::ops::RangeInclusive<usize>,
    core::ops::RangeFrom<usize>,
    core::ops::RangeTo<usize>,
    core::ops::RangeToInclusive<usize>,
    core::ops::RangeFull
);
impl<I: BitIndex> Index<I> for BitSlice {
    type Output = I::Out;
    fn index(&self, i: I) -> &I::Out {
        i.at(&self.0)
    }
}
impl<I: BitIndex> IndexMut<I> for BitSlice {
    fn index_mut(&mut self, i: I) -> &mut I::Out {
        i.at_mut(&mut self.0)
    }
}
macro_rules! bits_common {
    ($n:ident) => {
        impl<const N: usize> fmt::Debug for $n<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($n))?;
                f.write_str("[")?;
                for b in &self.data {
                    f.write_str(if *b { "1" } else { "0" })?;
                }
                f.write_str("]")
            }
        }
        impl<const N: usize> Deref for $n<N> {
            type Target = BitSlice;
            fn deref(&self) -> &BitSlice {
                BitSlice::new(&self.data)
            }
        }
        impl<const N: usize> DerefMut for $n<N> {
            fn deref_mut(&mut self) -> &mut BitSlice {
                BitSlice::new_mut(&mut self.data)
            }
        }
        impl<I: BitIndex, const N: usize> Index<I> for $n<N> {
            type Output = I::Out;
            fn index(&self, i: I) -> &I::Out {
                i.at(&self.data)
            }
        }
        impl<I: BitIndex, const N: usize> IndexMut<I> for $n<N> {
            fn index_mut(&mut self, i: I) -> &mut I::Out {
                i.at_mut(&mut self.data)
            }
        }
        impl<const N: usize> $n<N> {
            pub fn capacity(&self) -> usize {
                self.data.capacity()
            }
        }
        impl<'a, const N: usize> IntoIterator for &'a $n<N> {
            type Item = &'a bool;
            type IntoIter = BitIter<'a>;
            fn into_iter(self) -> BitIter<'a> {
                BitIter(self.data.iter())
            }
        }
        impl<const N: usize> serde::Serialize for $n<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut b = vec![];
                Serialize::serialize(self, &mut b).map_err(serde::ser::Error::custom)?;
                s.collect_str(&format!("0x{}", hex::encode(b)))
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $n<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v = __internal::hex_bytes(d)?;
                <Self as Deserialize>::deserialize(&v).map_err(serde::de::Error::custom)
            }
        }
        impl<const N: usize> Prove for $n<N> {}
        impl<const N: usize> SimpleSerialize for $n<N> {}
        impl<const N: usize> GeneralizedIndexable for $n<N> {
            fn chunk_count() -> usize {
                (N + 255) / 256
            }
        }
        impl<const N: usize> TryFrom<&[u8]> for $n<N> {
            type Error = DeserializeError;
            fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
                <Self as Deserialize>::deserialize(b)
            }
        }
    };
}
bits_common!(Bitlist);
bits_common!(Bitvector);
impl<const N: usize> Bitlist<N> {
    pub fn push(&mut self, b: bool) {
        self.data.push(b)
    }
    pub fn with_capacity(n: usize) -> Self {
        Bitlist { data: Vec::with_capacity(n) }
    }
    pub fn with_length(n: usize) -> Self {
        Bitlist { data: vec![false; n] }
    }
}
impl<const N: usize> FromIterator<bool> for Bitlist<N> {
    fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self {
        Bitlist { data: i.into_iter().collect() }
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> {
    type Error = Error;
    fn try_from(b: &[bool]) -> Result<Self, Self::Error> {
        if b.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: b.len() }.into());
        }
        Ok(Bitlist { data: b.to_vec() })
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitvector<N> {
    type Error = Error;
    fn try_from(b: &[bool]) -> Result<Self, Self::Error> {
        if b.len() != N {
            return Err(InstanceError::Exact { required: N, provided: b.len() }.into());
        }
        Ok(Bitvector { data: b.to_vec() })
    }
}
fn pack_bits(bits: &[bool], out: &mut Vec<u8>) {
    let n = (bits.len() + 7) / 8;
    for i in 0..n {
        let mut b = 0u8;
        for j in 0..8 {
            if 8 * i + j < bits.len() {
                b |= (bits[8 * i + j] as u8) << j;
            }
        }
        out.push(b);
    }
}
impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        (N + 7) / 8
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.data.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: self.data.len() }.into());
        }
        let start = b.len();
        let mut bits = self.data.clone();
        bits.push(true);
        pack_bits(&bits, b);
        Ok(b.len() - start)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let start = b.len();
        pack_bits(&self.data, b);
        Ok(b.len() - start)
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let Some(last) = e.last() else {
            return Err(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 });
        };
        if *last == 0 {
            return Err(DeserializeError::InvalidByte(0));
        }
        let len = 8 * (e.len() - 1) + 7 - last.leading_zeros() as usize;
        if len > N {
            return Err(InstanceError::Bounded { bound: N, provided: len }.into());
        }
        let data = (0..len).map(|i| (e[i / 8] >> (i % 8)) & 1 == 1).collect();
        Ok(Bitlist { data })
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        __internal::exact(e, (N + 7) / 8)?;
        for i in N..8 * e.len() {
            if (e[i / 8] >> (i % 8)) & 1 == 1 {
                return Err(DeserializeError::InvalidByte(e[i / 8]));
            }
        }
        let data = (0..N).map(|i| (e[i / 8] >> (i % 8)) & 1 == 1).collect();
        Ok(Bitvector { data })
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let mut b = vec![];
        pack_bits(&self.data, &mut b);
        let r = __internal::merkleize_bytes(b, Some((N + 255) / 256))?;
        Ok(__internal::mix_in(r, self.data.len()))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let mut b = vec![];
        pack_bits(&self.data, &mut b);
        __internal::merkleize_bytes(b, Some((N + 255) / 256))
    }
}

// ---------------------------------------------------------------- internals
pub mod __internal {
    use super::*;

    pub fn hex_bytes<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        let s = s.strip_prefix("0x").ok_or_else(|| serde::de::Error::custom("missing 0x prefix"))?;
        hex::decode(s).map_err(serde::de::Error::custom)
    }

    pub fn exact(e: &[u8], n: usize) -> Result<(), DeserializeError> {
        if e.len() < n {
            Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n })
        } else if e.len() > n {
            Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n })
        } else {
            Ok(())
        }
    }

    pub fn chunks_for<T: SimpleSerialize>(n: usize) -> usize {
        if T::is_composite_type() {
            n
        } else {
            let per = 32 / T::size_hint();
            n / per + (n % per != 0) as usize
        }
    }

    pub fn hash_pair(a: &[u8], b: &[u8]) -> [u8; 32] {
        let mut buf = [0u8; 64];
        buf[..32].copy_from_slice(a);
        buf[32..].copy_from_slice(b);
        sha256(&buf)
    }

    pub fn merkleize_bytes(mut b: Vec<u8>, limit: Option<usize>) -> Result<Node, MerkleizationError> {
        while b.len() % 32 != 0 {
            b.push(0);
        }
        merkleize(&b, limit)
    }

    /// `chunks` is a multiple of 32 bytes; `limit` a number of chunks.
    pub fn merkleize(chunks: &[u8], limit: Option<usize>) -> Result<Node, MerkleizationError> {
        let count = chunks.len() / 32;
        let width = limit.unwrap_or(count).max(1);
        if count > width {
            return Err(MerkleizationError::InputExceedsLimit(width));
        }
        let mut depth = 0u32;
        while depth < 63 && (1usize << depth) < width {
            depth += 1;
        }
        let mut layer: Vec<u8> = chunks.to_vec();
        let mut zero = [0u8; 32];
        if layer.is_empty() {
            for _ in 0..depth {
                zero = hash_pair(&zero, &zero);
            }
            return Ok(Node(zero));
        }
        for _ in 0..depth {
            if (layer.len() / 32) % 2 == 1 {
                layer.extend_from_slice(&zero);
            }
            let mut next = Vec::with_capacity(layer.len() / 2);
            let mut i = 0;
            while i < layer.len() {
                next.extend_from_slice(&sha256(&layer[i..i + 64]));
                i += 64;
            }
            layer = next;
            zero = hash_pair(&zero, &zero);
        }
        let mut out = [0u8; 32];
        out.copy_from_slice(&layer[..32]);
        Ok(Node(out))
    }

    pub fn mix_in(root: Node, len: usize) -> Node {
        let mut l = [0u8; 32];
        l[..8].copy_from_slice(&(len as u64).to_le_bytes());
        Node(hash_pair(&root.0, &l))
    }

    pub fn root_of_seq<T: SimpleSerialize>(
        data: &[T],
        limit: Option<usize>,
    ) -> Result<Node, MerkleizationError> {
        let mut chunks = Vec::new();
        if T::is_composite_type() {
            for e in data {
                chunks.extend_from_slice(&e.hash_tree_root()?.0);
            }
            merkleize(&chunks, limit)
        } else {
            for e in data {
                e.serialize(&mut chunks)?;
            }
            merkleize_bytes(chunks, limit)
        }
    }

    pub fn serialize_seq<T: SimpleSerialize>(
        data: &[T],
        b: &mut Vec<u8>,
    ) -> Result<usize, SerializeError> {
        let mut s = ContainerSerializer::new();
        let var = T::is_variable_size();
        for e in data {
            s.field(e, var)?;
        }
        s.finish(b)
    }

    pub fn deserialize_seq<T: SimpleSerialize>(e: &[u8]) -> Result<Vec<T>, DeserializeError> {
        if e.is_empty() {
            return Ok(vec![]);
        }
        if T::is_variable_size() {
            if e.len() < 4 {
                return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: 4 });
            }
            let first = read_offset(e, 0);
            if first == 0 || first % 4 != 0 || first > e.len() {
                return Err(DeserializeError::InvalidOffsetsLength(first));
            }
            let n = first / 4;
            let mut out = vec![];
            for i in 0..n {
                let start = read_offset(e, 4 * i);
                let end = if i + 1 < n { read_offset(e, 4 * i + 4) } else { e.len() };
                if start > end || end > e.len() {
                    return Err(DeserializeError::OffsetNotIncreasing { start, end });
                }
                out.push(T::deserialize(&e[start..end])?);
            }
            Ok(out)
        } else {
            let sz = T::size_hint();
            let rem = e.len() % sz;
            if rem != 0 {
                return Err(DeserializeError::AdditionalInput {
                    provided: e.len(),
                    expected: e.len() - rem,
                });
            }
            let mut out = Vec::with_capacity(e.len() / sz);
            for c in e.chunks(sz) {
                out.push(T::deserialize(c)?);
            }
            Ok(out)
        }
    }

    fn read_offset(e: &[u8], at: usize) -> usize {
        u32::from_le_bytes([e[at], e[at + 1], e[at + 2], e[at + 3]]) as usize
    }

    pub struct ContainerSerializer {
        parts: Vec<(bool, Vec<u8>)>,
    }
    impl ContainerSerializer {
        pub fn new() -> Self {
            Self { parts: vec![] }
        }
        pub fn field<T: Serialize>(&mut self, v: &T, var: bool) -> Result<(), SerializeError> {
            let mut b = vec![];
            v.serialize(&mut b)?;
            self.parts.push((var, b));
            Ok(())
        }
        pub fn finish(self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
            let start = out.len();
            let fixed: usize = self.parts.iter().map(|(v, b)| if *v { 4 } else { b.len() }).sum();
            let mut off = fixed;
            for (v, b) in &self.parts {
                if *v {
                    out.extend_from_slice(&(off as u32).to_le_bytes());
                    off += b.len();
                } else {
                    out.extend_from_slice(b);
                }
            }
            for (v, b) in &self.parts {
                if *v {
                    out.extend_from_slice(b);
                }
            }
            Ok(out.len() - start)
        }
    }

    pub fn split_container<'a>(
        e: &'a [u8],
        layout: &[(bool, usize)],
    ) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed: usize = layout.iter().map(|(v, s)| if *v { 4 } else { *s }).sum();
        if e.len() < fixed {
            return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: fixed });
        }
        let mut out: Vec<&[u8]> = vec![];
        let mut offs: Vec<(usize, usize)> = vec![];
        let mut at = 0;
        for (i, (v, s)) in layout.iter().enumerate() {
            if *v {
                offs.push((i, read_offset(e, at)));
                out.push(&[]);
                at += 4;
            } else {
                out.push(&e[at..at + s]);
                at += s;
            }
        }
        if offs.is_empty() {
            exact(e, fixed)?;
        } else if offs[0].1 != fixed {
            return Err(DeserializeError::InvalidOffsetsLength(offs[0].1));
        }
        for k in 0..offs.len() {
            let start = offs[k].1;
            let end = if k + 1 < offs.len() { offs[k + 1].1 } else { e.len() };
            if start > end || end > e.len() {
                return Err(DeserializeError::OffsetNotIncreasing { start, end });
            }
            out[offs[k].0] = &e[start..end];
        }
        Ok(out)
    }
}

pub mod proofs {
    use super::*;
    pub fn get_subtree_index(i: GeneralizedIndex) -> Result<usize, MerkleizationError> {
        let d = get_depth(i)?;
        Ok(i % (1usize << d))
    }
    pub fn get_depth(i: GeneralizedIndex) -> Result<u32, MerkleizationError> {
        i.checked_ilog2().ok_or(MerkleizationError::InvalidGeneralizedIndex)
    }
    pub fn is_valid_merkle_branch_for_generalized_index<T: AsRef<[u8]>>(
        leaf: Node,
        branch: &[T],
        gi: GeneralizedIndex,
        root: Node,
    ) -> Result<(), MerkleizationError> {
        is_valid_merkle_branch(leaf, branch, get_depth(gi)? as usize, get_subtree_index(gi)?, root)
    }
    pub fn is_valid_merkle_branch<T: AsRef<[u8]>>(
        leaf: Node,
        branch: &[T],
        depth: usize,
        index: usize,
        root: Node,
    ) -> Result<(), MerkleizationError> {
        if branch.len() != depth {
            return Err(MerkleizationError::InvalidProof);
        }
        let mut v = leaf.0;
        for i in 0..depth {
            let n = branch[i].as_ref();
            v = if (index >> i) & 1 == 1 {
                __internal::hash_pair(n, &v)
            } else {
                __internal::hash_pair(&v, n)
            };
        }
        if v == root.0 {
            Ok(())
        } else {
            Err(MerkleizationError::InvalidProof)
        }
    }
}

pub mod prelude {
    pub use crate::proofs::{self, is_valid_merkle_branch};
    pub use crate::{
        deserialize, serialize, Bitlist, Bitvector, Deserialize, DeserializeError,
        Error as SimpleSerializeError, GeneralizedIndex, GeneralizedIndexable, HashTreeRoot,
        InstanceError, List, MerkleizationError, Node, Path, PathElement, Prove, Serializable,
        Serialize, SerializeError, SimpleSerialize, TypeBoundsError, Vector, U256,
    };
}
