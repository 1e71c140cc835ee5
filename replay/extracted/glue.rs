
// ---- Appended by tools/same.py to the text that Verus verifies, when that text is compiled and run.
// Outside verus!{}: the trait implementations that the extraction turned into inherent functions.
macro_rules! vx_iter {
    ([$($g:tt)*] $t:ty, $p:path, $item:ty) => {
        impl<$($g)*> Iterator for $t {
            type Item = $item;
            fn next(&mut self) -> Option<$item> { <$t>::next(self) }
            fn size_hint(&self) -> (usize, Option<usize>) { <$t>::size_hint(self) }
        }
    };
}
vx_iter!(['a] frame::StereoSamples<'a>, frame::StereoSamples, (i32, i32));
vx_iter!(['a] metadata::Tags<'a>, metadata::Tags, (&'a str, &'a str));
vx_iter!(['a] metadata::GetTag<'a>, metadata::GetTag, &'a str);
vx_iter!([R: input::ReadBytes] metadata::MetadataBlockReader<R>, metadata::MetadataBlockReader, error::Result<metadata::MetadataBlock>);
vx_iter!([R: input::ReadBytes] lib_::FlacSamples<R>, lib_::FlacSamples, error::Result<i32>);
vx_iter!([R: input::ReadBytes] lib_::FlacIntoSamples<R>, lib_::FlacIntoSamples, error::Result<i32>);
impl<'a> ExactSizeIterator for metadata::Tags<'a> {}
impl std::fmt::Debug for error::Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            error::Error::IoError(e) => f.debug_tuple("IoError").field(e).finish(),
            error::Error::FormatError(e) => f.debug_tuple("FormatError").field(e).finish(),
            error::Error::Unsupported(e) => f.debug_tuple("Unsupported").field(e).finish(),
        }
    }
}
impl std::fmt::Debug for lib_::FlacReaderOptions {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_struct("FlacReaderOptions").field("metadata_only", &self.metadata_only).field("read_vorbis_comment", &self.read_vorbis_comment).finish()
    }
}
impl PartialEq for lib_::FlacReaderOptions {
    fn eq(&self, o: &lib_::FlacReaderOptions) -> bool { self.metadata_only == o.metadata_only && self.read_vorbis_comment == o.read_vorbis_comment }
}
// axiom_sizes of contracts/spec/base.rs
const _: () = assert!(std::mem::size_of::<u8>() == 1 && std::mem::size_of::<(String, usize)>() == 32);
