//! Stand-in: PBKDF2 is an uninterpreted function of the phrase, the salt and the rounds.
extern "C" {
    fn __sym_uf(tag: *const u8, tag_len: usize, data: *const u8, len: usize, out: *mut u8, out_len: usize);
}
pub(crate) fn pbkdf2<M>(mnemonic: M, unprefixed_salt: &[u8], c: usize, res: &mut [u8])
where
    M: Iterator<Item = &'static str> + Clone,
{
    let phrase = mnemonic.collect::<Vec<_>>().join(" ");
    let mut d = (phrase.len() as u64).to_le_bytes().to_vec();
    d.extend_from_slice(phrase.as_bytes());
    d.extend_from_slice(b"mnemonic");
    d.extend_from_slice(unprefixed_salt);
    d.extend_from_slice(&(c as u64).to_le_bytes());
    unsafe { __sym_uf(b"pbkdf2".as_ptr(), 6, d.as_ptr(), d.len(), res.as_mut_ptr(), res.len()) };
}
