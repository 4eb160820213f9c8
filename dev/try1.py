L='shogi_core/src/lib.rs'
POS = 'shogi_core/src/position.rs'
TRY=[
('std-without-alloc','C20,C23',[(L,'''#[macro_use]
mod annotated_derive;''','''#[cfg(not(feature = "alloc"))]
extern crate std;

#[macro_use]
mod annotated_derive;''')]),
('alloc-always','C20,C23',[(L,'''#[cfg(feature = "alloc")]
extern crate alloc;''','''extern crate alloc;'''),('shogi_core/src/to_usi.rs','''    #[cfg(feature = "alloc")]
    #[cfg_attr(docsrs, doc(cfg(feature = "alloc")))]
''','')]),
]
