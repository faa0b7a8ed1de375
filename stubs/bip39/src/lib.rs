// The bip39 crate 2.2.2 (CC0), with only the English words; the hash function and PBKDF2 are
// the runtime's, and from_entropy_in does not branch.
// Rust Bitcoin Library
// Written in 2020 by
//	 Steven Roose <steven@stevenroose.org>
// To the extent possible under law, the author(s) have dedicated all
// copyright and related and neighboring rights to this software to
// the public domain worldwide. This software is distributed without
// any warranty.
//
// You should have received a copy of the CC0 Public Domain Dedication
// along with this software.
// If not, see <http://creativecommons.org/publicdomain/zero/1.0/>.
//

//! # BIP39 Mnemonic Codes
//!
//! Library crate implementing [BIP39](https://github.com/bitcoin/bips/blob/master/bip-0039.mediawiki)
//!

#![deny(non_upper_case_globals)]
#![deny(non_camel_case_types)]
#![deny(non_snake_case)]
#![allow(unused, missing_docs)]
#![cfg_attr(all(not(test), not(feature = "std")), no_std)]
#![cfg_attr(docsrs, feature(doc_cfg))]

#[cfg(any(test, feature = "std"))]
pub extern crate core;

#[cfg(feature = "alloc")]
extern crate alloc;

/// Stand-in: the digest is the runtime's (an uninterpreted function on symbolic inputs).
mod bitcoin_hashes {
	pub trait Hash: Sized {
		fn hash(data: &[u8]) -> Self;
	}
	pub mod sha256 {
		pub struct Hash([u8; 32]);
		impl super::Hash for Hash {
			fn hash(data: &[u8]) -> Self {
				use sha2::Digest;
				Hash(sha2::Sha256::digest(data).into())
			}
		}
		impl core::ops::Index<usize> for Hash {
			type Output = u8;
			fn index(&self, i: usize) -> &u8 {
				&self.0[i]
			}
		}
	}
}

#[cfg(feature = "unicode-normalization")]
extern crate unicode_normalization;

#[cfg(feature = "rand")]
pub extern crate crate_rand as rand;
#[cfg(feature = "rand_core")]
pub extern crate rand_core;
#[cfg(feature = "serde")]
pub extern crate serde;

#[cfg(feature = "alloc")]
use alloc::borrow::Cow;
use core::{fmt, str};

#[cfg(all(feature = "alloc", not(feature = "std")))]
use alloc::{string::ToString, vec::Vec};

/// We support a wide range of dependency versions for `rand` and `rand_core` and not
/// all versions play nicely together. These re-exports fix that.
#[cfg(all(feature = "rand", feature = "rand_core"))]
use rand::{CryptoRng, RngCore};
#[cfg(all(not(feature = "rand"), feature = "rand_core"))]
use rand_core::{CryptoRng, RngCore};

#[cfg(feature = "std")]
use std::error;

use bitcoin_hashes::{sha256, Hash};

#[cfg(feature = "unicode-normalization")]
use unicode_normalization::UnicodeNormalization;

#[cfg(feature = "zeroize")]
extern crate zeroize;
#[cfg(feature = "zeroize")]
use zeroize::{Zeroize, ZeroizeOnDrop};

#[macro_use]
mod internal_macros;
mod language;
mod pbkdf2;

pub use language::Language;

/// The minimum number of words in a mnemonic.
#[allow(unused)]
const MIN_NB_WORDS: usize = 12;

/// The maximum number of words in a mnemonic.
const MAX_NB_WORDS: usize = 24;

/// The index used to indicate the mnemonic ended.
const EOF: u16 = u16::max_value();

/// A structured used in the [Error::AmbiguousLanguages] variant that iterates
/// over the possible languages.
#[derive(Debug, Clone, PartialEq, Eq, Copy)]
pub struct AmbiguousLanguages([bool; language::MAX_NB_LANGUAGES]);

impl AmbiguousLanguages {
	/// Presents the possible languages in the form of a slice of booleans
	/// that correspond to the occurrences in [Language::ALL].
	pub fn as_bools(&self) -> &[bool; language::MAX_NB_LANGUAGES] {
		&self.0
	}

	/// An iterator over the possible languages.
	pub fn iter(&self) -> impl Iterator<Item = Language> + '_ {
		Language::ALL.iter().enumerate().filter(move |(i, _)| self.0[*i]).map(|(_, l)| *l)
	}

	/// Returns a vector of the possible languages.
	#[cfg(feature = "alloc")]
	pub fn to_vec(&self) -> Vec<Language> {
		self.iter().collect()
	}
}

/// A BIP39 error.
#[derive(Debug, Clone, PartialEq, Eq, Copy)]
pub enum Error {
	/// Mnemonic has a word count that is not a multiple of 6.
	BadWordCount(usize),
	/// Mnemonic contains an unknown word.
	/// Error contains the index of the word.
	/// Use `mnemonic.split_whitespace().get(i)` to get the word.
	UnknownWord(usize),
	/// Entropy was not a multiple of 32 bits or between 128-256n bits in length.
	BadEntropyBitCount(usize),
	/// The mnemonic has an invalid checksum.
	InvalidChecksum,
	/// The mnemonic can be interpreted as multiple languages.
	/// Use the helper methods of the inner struct to inspect
	/// which languages are possible.
	AmbiguousLanguages(AmbiguousLanguages),
}

impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match *self {
			Error::BadWordCount(c) => {
				write!(
					f,
					"mnemonic has an invalid word count: {}. Word count must be 12, 15, 18, 21, \
					or 24",
					c
				)
			}
			Error::UnknownWord(i) => write!(f, "mnemonic contains an unknown word (word {})", i,),
			Error::BadEntropyBitCount(c) => write!(
				f,
				"entropy was not between 128-256 bits or not a multiple of 32 bits: {} bits",
				c,
			),
			Error::InvalidChecksum => write!(f, "the mnemonic has an invalid checksum"),
			Error::AmbiguousLanguages(a) => {
				write!(f, "ambiguous word list: ")?;
				for (i, lang) in a.iter().enumerate() {
					if i == 0 {
						write!(f, "{}", lang)?;
					} else {
						write!(f, ", {}", lang)?;
					}
				}
				Ok(())
			}
		}
	}
}

#[cfg(feature = "std")]
impl error::Error for Error {}

/// A mnemonic code.
///
/// The [core::str::FromStr] implementation will try to determine the language of the
/// mnemonic from all the supported languages. (Languages have to be explicitly enabled using
/// the Cargo features.)
///
/// Supported number of words are 12, 15, 18, 21, and 24.
#[derive(Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
#[cfg_attr(feature = "zeroize", derive(Zeroize, ZeroizeOnDrop))]
pub struct Mnemonic {
	/// The language the mnemonic.
	lang: Language,
	/// The indices of the words.
	/// Mnemonics with less than the max nb of words are terminated with EOF.
	words: [u16; MAX_NB_WORDS],
}

#[cfg(feature = "zeroize")]
impl zeroize::DefaultIsZeroes for Language {}

serde_string_impl!(Mnemonic, "a BIP-39 Mnemonic Code");

impl Mnemonic {
	/// Ensure the content of the [Cow] is normalized UTF8.
	/// Performing this on a [Cow] means that all allocations for normalization
	/// can be avoided for languages without special UTF8 characters.
	#[inline]
	#[cfg(feature = "unicode-normalization")]
	pub fn normalize_utf8_cow<'a>(cow: &mut Cow<'a, str>) {
		let is_nfkd = unicode_normalization::is_nfkd_quick(cow.as_ref().chars());
		if is_nfkd != unicode_normalization::IsNormalized::Yes {
			*cow = Cow::Owned(cow.as_ref().nfkd().to_string());
		}
	}

	/// Create a new [Mnemonic] in the specified language from the given entropy.
	/// Entropy must be a multiple of 32 bits (4 bytes) and 128-256 bits in length.
	pub fn from_entropy_in(language: Language, entropy: &[u8]) -> Result<Mnemonic, Error> {
		const MAX_ENTROPY_BITS: usize = 256;
		const MIN_ENTROPY_BITS: usize = 128;
		const MAX_CHECKSUM_BITS: usize = 8;

		let nb_bytes = entropy.len();
		let nb_bits = nb_bytes * 8;

		if nb_bits % 32 != 0 {
			return Err(Error::BadEntropyBitCount(nb_bits));
		}
		if nb_bits < MIN_ENTROPY_BITS || nb_bits > MAX_ENTROPY_BITS {
			return Err(Error::BadEntropyBitCount(nb_bits));
		}

		let check = sha256::Hash::hash(&entropy);
		// as in the original, without a branch per bit
		let mut bits = [0u8; MAX_ENTROPY_BITS + MAX_CHECKSUM_BITS];
		for i in 0..nb_bytes {
			for j in 0..8 {
				bits[i * 8 + j] = entropy[i] >> (7 - j) & 1;
			}
		}
		for i in 0..nb_bytes / 4 {
			bits[8 * nb_bytes + i] = check[i / 8] >> (7 - (i % 8)) & 1;
		}

		let mut words = [EOF; MAX_NB_WORDS];
		let nb_words = nb_bytes * 3 / 4;
		for i in 0..nb_words {
			let mut idx = 0;
			for j in 0..11 {
				idx = idx << 1 | bits[i * 11 + j] as u16;
			}
			words[i] = idx;
		}

		Ok(Mnemonic {
			lang: language,
			words: words,
		})
	}

	/// Create a new English [Mnemonic] from the given entropy.
	/// Entropy must be a multiple of 32 bits (4 bytes) and 128-256 bits in length.
	pub fn from_entropy(entropy: &[u8]) -> Result<Mnemonic, Error> {
		Mnemonic::from_entropy_in(Language::English, entropy)
	}

	/// Generate a new [Mnemonic] in the given language
	/// with the given randomness source.
	/// For the different supported word counts, see documentation on [Mnemonic].
	///
	/// Example:
	///
	/// ```
	/// use bip39::{Mnemonic, Language};
	///
	/// let mut rng = bip39::rand::thread_rng();
	/// let m = Mnemonic::generate_in_with(&mut rng, Language::English, 24).unwrap();
	/// ```
	#[cfg(feature = "rand_core")]
	pub fn generate_in_with<R>(
		rng: &mut R,
		language: Language,
		word_count: usize,
	) -> Result<Mnemonic, Error>
	where
		R: RngCore + CryptoRng,
	{
		if is_invalid_word_count(word_count) {
			return Err(Error::BadWordCount(word_count));
		}

		let entropy_bytes = (word_count / 3) * 4;
		let mut entropy = [0u8; (MAX_NB_WORDS / 3) * 4];
		RngCore::fill_bytes(rng, &mut entropy[0..entropy_bytes]);
		Mnemonic::from_entropy_in(language, &entropy[0..entropy_bytes])
	}

	/// Generate a new [Mnemonic] in the given language.
	/// For the different supported word counts, see documentation on [Mnemonic].
	///
	/// Example:
	///
	/// ```
	/// use bip39::{Mnemonic, Language};
	///
	/// let m = Mnemonic::generate_in(Language::English, 24).unwrap();
	/// ```
	#[cfg(feature = "rand")]
	pub fn generate_in(language: Language, word_count: usize) -> Result<Mnemonic, Error> {
		Mnemonic::generate_in_with(&mut rand::thread_rng(), language, word_count)
	}

	/// Generate a new [Mnemonic] in English.
	/// For the different supported word counts, see documentation on [Mnemonic].
	///
	/// Example:
	///
	/// ```
	/// use bip39::Mnemonic;
	///
	/// let m = Mnemonic::generate(24).unwrap();
	/// ```
	#[cfg(feature = "rand")]
	pub fn generate(word_count: usize) -> Result<Mnemonic, Error> {
		Mnemonic::generate_in(Language::English, word_count)
	}

	/// Get the language of the [Mnemonic].
	pub fn language(&self) -> Language {
		self.lang
	}

	/// Returns an iterator over the words of the [Mnemonic].
	///
	/// # Examples
	///
	/// Basic usage:
	///
	/// ```
	/// use bip39::Mnemonic;
	///
	/// let mnemonic = Mnemonic::from_entropy(&[0; 32]).unwrap();
	/// for (i, word) in mnemonic.words().enumerate() {
	///     println!("{}. {}", i, word);
	/// }
	/// ```
	pub fn words(&self) -> impl Iterator<Item = &'static str> + Clone + '_ {
		let list = self.lang.word_list();
		self.word_indices().map(move |i| list[i])
	}

	/// Returns an iterator over the words of the [Mnemonic].
	#[deprecated(since = "2.1.0", note = "Use Mnemonic::words instead")]
	pub fn word_iter(&self) -> impl Iterator<Item = &'static str> + Clone + '_ {
		self.words()
	}

	/// Returns an iterator over [Mnemonic] word indices.
	///
	/// # Examples
	///
	/// Basic usage:
	///
	/// ```
	/// use bip39::{Language, Mnemonic};
	///
	/// let list = Language::English.word_list();
	/// let mnemonic = Mnemonic::from_entropy(&[0; 32]).unwrap();
	/// for i in mnemonic.word_indices() {
	/// 	println!("{} ({})", list[i], i);
	/// }
	/// ```
	pub fn word_indices(&self) -> impl Iterator<Item = usize> + Clone + '_ {
		self.words.iter().take_while(|&&w| w != EOF).map(|w| *w as usize)
	}

	/// Determine the language of the mnemonic as a word iterator.
	/// See documentation on [Mnemonic::language_of] for more info.
	fn language_of_iter<'a, W: Iterator<Item = &'a str>>(words: W) -> Result<Language, Error> {
		let mut words = words.peekable();
		let langs = Language::ALL;
		{
			// Start scope to drop first_word so that words can be reborrowed later.
			let first_word = words.peek().ok_or(Error::BadWordCount(0))?;
			if first_word.len() == 0 {
				return Err(Error::BadWordCount(0));
			}

			// We first try find the first word in wordlists that
			// have guaranteed unique words.
			for language in langs.iter().filter(|l| l.unique_words()) {
				if language.find_word(first_word).is_some() {
					return Ok(*language);
				}
			}
		}

		// If that didn't work, we start with all possible languages
		// (those without unique words), and eliminate until there is
		// just one left.
		let mut possible = [false; language::MAX_NB_LANGUAGES];
		for (i, lang) in langs.iter().enumerate() {
			// To start, only consider lists that don't have unique words.
			// Those were considered above.
			possible[i] = !lang.unique_words();
		}
		for (idx, word) in words.enumerate() {
			// Scrap languages that don't have this word.
			for (i, lang) in langs.iter().enumerate() {
				possible[i] &= lang.find_word(word).is_some();
			}

			// Get an iterator over remaining possible languages.
			let mut iter = possible.iter().zip(langs.iter()).filter(|(p, _)| **p).map(|(_, l)| l);

			match iter.next() {
				// If all languages were eliminated, it's an invalid word.
				None => return Err(Error::UnknownWord(idx)),
				// If not, see if there is a second one remaining.
				Some(remaining) => {
					if iter.next().is_none() {
						// No second remaining, we found our language.
						return Ok(*remaining);
					}
				}
			}
		}

		return Err(Error::AmbiguousLanguages(AmbiguousLanguages(possible)));
	}

	/// Determine the language of the mnemonic.
	///
	/// NOTE: This method only guarantees that the returned language is the
	/// correct language on the assumption that the mnemonic is valid.
	/// It does not itself validate the mnemonic.
	///
	/// Some word lists don't guarantee that their words don't occur in other
	/// word lists. In the extremely unlikely case that a word list can be
	/// interpreted in multiple languages, an [Error::AmbiguousLanguages] is
	/// returned, containing the possible languages.
	pub fn language_of<S: AsRef<str>>(mnemonic: S) -> Result<Language, Error> {
		Mnemonic::language_of_iter(mnemonic.as_ref().split_whitespace())
	}

	/// Parse a mnemonic in normalized UTF8 in the given language.
	pub fn parse_in_normalized(language: Language, s: &str) -> Result<Mnemonic, Error> {
		let nb_words = s.split_whitespace().count();
		if is_invalid_word_count(nb_words) {
			return Err(Error::BadWordCount(nb_words));
		}

		// Here we will store the eventual words.
		let mut words = [EOF; MAX_NB_WORDS];

		// And here we keep track of the bits to calculate and validate the checksum.
		// We only use `nb_words * 11` elements in this array.
		let mut bits = [false; MAX_NB_WORDS * 11];

		for (i, word) in s.split_whitespace().enumerate() {
			let idx = language.find_word(word).ok_or(Error::UnknownWord(i))?;

			words[i] = idx;

			for j in 0..11 {
				bits[i * 11 + j] = idx >> (10 - j) & 1 == 1;
			}
		}

		// Verify the checksum.
		// We only use `nb_words / 3 * 4` elements in this array.
		let mut entropy = [0u8; MAX_NB_WORDS / 3 * 4];
		let nb_bytes_entropy = nb_words / 3 * 4;
		for i in 0..nb_bytes_entropy {
			for j in 0..8 {
				if bits[i * 8 + j] {
					entropy[i] += 1 << (7 - j);
				}
			}
		}
		let check = sha256::Hash::hash(&entropy[0..nb_bytes_entropy]);
		for i in 0..nb_bytes_entropy / 4 {
			if bits[8 * nb_bytes_entropy + i] != ((check[i / 8] & (1 << (7 - (i % 8)))) > 0) {
				return Err(Error::InvalidChecksum);
			}
		}

		Ok(Mnemonic {
			lang: language,
			words: words,
		})
	}

	/// Parse a mnemonic in normalized UTF8 in the given language without checksum check.
	///
	/// It is advised to use this method together with the utility methods
	/// - [Mnemonic::normalize_utf8_cow]
	/// - [Mnemonic::language_of]
	pub fn parse_in_normalized_without_checksum_check(
		language: Language,
		s: &str,
	) -> Result<Mnemonic, Error> {
		let nb_words = s.split_whitespace().count();
		if is_invalid_word_count(nb_words) {
			return Err(Error::BadWordCount(nb_words));
		}

		// Here we will store the eventual words.
		let mut words = [EOF; MAX_NB_WORDS];

		for (i, word) in s.split_whitespace().enumerate() {
			let idx = language.find_word(word).ok_or(Error::UnknownWord(i))?;

			words[i] = idx;
		}

		Ok(Mnemonic {
			lang: language,
			words: words,
		})
	}

	/// Parse a mnemonic in normalized UTF8.
	pub fn parse_normalized(s: &str) -> Result<Mnemonic, Error> {
		let lang = Mnemonic::language_of(s)?;
		Mnemonic::parse_in_normalized(lang, s)
	}

	/// Parse a mnemonic in the given language.
	#[cfg(feature = "unicode-normalization")]
	pub fn parse_in<'a, S: Into<Cow<'a, str>>>(
		language: Language,
		s: S,
	) -> Result<Mnemonic, Error> {
		let mut cow = s.into();
		Mnemonic::normalize_utf8_cow(&mut cow);
		Ok(Mnemonic::parse_in_normalized(language, cow.as_ref())?)
	}

	/// Parse a mnemonic and detect the language from the enabled languages.
	#[cfg(feature = "unicode-normalization")]
	pub fn parse<'a, S: Into<Cow<'a, str>>>(s: S) -> Result<Mnemonic, Error> {
		let mut cow = s.into();
		Mnemonic::normalize_utf8_cow(&mut cow);

		let language = if Language::ALL.len() == 1 {
			Language::ALL[0]
		} else {
			Mnemonic::language_of(cow.as_ref())?
		};

		Ok(Mnemonic::parse_in_normalized(language, cow.as_ref())?)
	}

	/// Get the number of words in the mnemonic.
	pub fn word_count(&self) -> usize {
		self.word_indices().count()
	}

	/// Convert to seed bytes with a passphrase in normalized UTF8.
	pub fn to_seed_normalized(&self, normalized_passphrase: &str) -> [u8; 64] {
		const PBKDF2_ROUNDS: usize = 2048;
		const PBKDF2_BYTES: usize = 64;

		let mut seed = [0u8; PBKDF2_BYTES];
		pbkdf2::pbkdf2(self.words(), normalized_passphrase.as_bytes(), PBKDF2_ROUNDS, &mut seed);
		seed
	}

	/// Convert to seed bytes.
	#[cfg(feature = "unicode-normalization")]
	pub fn to_seed<'a, P: Into<Cow<'a, str>>>(&self, passphrase: P) -> [u8; 64] {
		let normalized_passphrase = {
			let mut cow = passphrase.into();
			Mnemonic::normalize_utf8_cow(&mut cow);
			cow
		};
		self.to_seed_normalized(normalized_passphrase.as_ref())
	}

	/// Convert the mnemonic back to the entropy used to generate it.
	/// The return value is a byte array and the size.
	/// Use [Mnemonic::to_entropy] (needs `std`) to get a [`Vec<u8>`].
	pub fn to_entropy_array(&self) -> ([u8; 33], usize) {
		// We unwrap errors here because this method can only be called on
		// values that were already previously validated.

		let language = Mnemonic::language_of_iter(self.words()).unwrap();

		// Preallocate enough space for the longest possible word list
		let mut entropy = [0; 33];
		let mut cursor = 0;
		let mut offset = 0;
		let mut remainder = 0;

		let nb_words = self.word_count();
		for word in self.words() {
			let idx = language.find_word(word).expect("invalid mnemonic");

			remainder |= ((idx as u32) << (32 - 11)) >> offset;
			offset += 11;

			while offset >= 8 {
				entropy[cursor] = (remainder >> 24) as u8;
				cursor += 1;
				remainder <<= 8;
				offset -= 8;
			}
		}

		if offset != 0 {
			entropy[cursor] = (remainder >> 24) as u8;
		}

		let entropy_bytes = (nb_words / 3) * 4;
		(entropy, entropy_bytes)
	}

	/// Convert the mnemonic back to the entropy used to generate it.
	#[cfg(feature = "alloc")]
	pub fn to_entropy(&self) -> Vec<u8> {
		let (arr, len) = self.to_entropy_array();
		arr[0..len].to_vec()
	}

	/// Return checksum value for the Mnemonic.
	///
	/// The checksum value is the numerical value of the first `self.word_count() / 3` bits of the
	/// [SHA256](https://en.wikipedia.org/wiki/SHA-2) digest of the Mnemonic's entropy, and is
	/// encoded by the last word of the mnemonic sentence.
	///
	/// This is useful for validating the integrity of a mnemonic: For a valid mnemonic `m`, the
	/// following assertion should hold:
	///
	/// ```rust
	/// # use bip39::Mnemonic;
	/// # use bitcoin_hashes::{Hash, sha256, hex::FromHex};
	/// # let ent = Vec::from_hex("98FE3D0FF6E955A484B0A1D0C9CE10F6").unwrap();
	/// # let m = Mnemonic::from_entropy(&ent).unwrap();
	/// let checksum_width = m.word_count() / 3;
	/// let shift_width = 8 - checksum_width;
	/// assert_eq!(sha256::Hash::hash(&m.to_entropy())[0] >> shift_width, m.checksum());
	/// ```
	///
	/// Note that since this library constrains initialization of `Mnemonic` instances through an
	/// API that guarantees validity, all `Mnemonic` instances should be valid and the above
	/// condition should hold.
	pub fn checksum(&self) -> u8 {
		let word_count = self.word_count();
		let last_word = self.words[word_count - 1];
		let mask = 0xFF >> (8 - word_count / 3);
		last_word as u8 & mask
	}
}

impl fmt::Display for Mnemonic {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		for (i, word) in self.words().enumerate() {
			if i > 0 {
				f.write_str(" ")?;
			}
			f.write_str(word)?;
		}
		Ok(())
	}
}

impl fmt::Debug for Mnemonic {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.debug_struct("Mnemonic")
			.field("lang", &self.language())
            // TODO(msrv>=1.53): switch to `.finish_non_exhaustive()` once MSRV 1.41 is dropped.
			.finish()
	}
}

impl str::FromStr for Mnemonic {
	type Err = Error;

	fn from_str(s: &str) -> Result<Mnemonic, Error> {
		#[cfg(feature = "unicode-normalization")]
		{
			Mnemonic::parse(s)
		}
		#[cfg(not(feature = "unicode-normalization"))]
		{
			Mnemonic::parse_normalized(s)
		}
	}
}

fn is_invalid_word_count(word_count: usize) -> bool {
	word_count < MIN_NB_WORDS || word_count % 3 != 0 || word_count > MAX_NB_WORDS
}

