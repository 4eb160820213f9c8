L='shogi_core/src/lib.rs'
POS = 'shogi_core/src/position.rs'
AD='shogi_core/src/annotated_derive.rs'
TRY=[
('gate-sfen-owned','C23',[(POS,'''    #[cfg(feature = "alloc")]
    #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
    pub fn to_sfen_owned(''','''    #[cfg(feature = "std")]
    #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
    pub fn to_sfen_owned('''),(POS,'''    pub fn to_sfen_owned(&self) -> alloc::string::String {
        self.inner.to_sfen_owned()''','''    #[cfg(feature = "std")]
    pub fn to_sfen_owned(&self) -> alloc::string::String {
        self.inner.to_sfen_owned()''')]),
('gate-hash-game','C23',[(POS,'''#[cfg(feature = "alloc")]
impl_hash_with_fields!(Game; inner, resolution);''','''#[cfg(feature = "std")]
impl_hash_with_fields!(Game; inner, resolution);''')]),
]
