verus! {
pub mod io {
    use vstd::prelude::*;
    verus! {
    #[derive(Copy, Clone, PartialEq, Eq)]
    pub enum ErrorKind {
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable,
        ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists,
        WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle,
        InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge,
        ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong,
        Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    }
    unsafe impl Structural for ErrorKind {}
    #[verifier::external_body]
    pub struct Error { e: std::io::Error }
    pub type Result<T> = std::result::Result<T, Error>;
    impl Error {
        #[verifier::external_body]
        pub fn from(k: ErrorKind) -> Error { unimplemented!() }
        #[verifier::external_body]
        pub fn last_os_error__() -> Error { unimplemented!() }
        #[verifier::external_body]
        pub fn new(k: ErrorKind, m: &str) -> Error { unimplemented!() }
        // nothing is known of an error's kind or code
        #[verifier::external_body]
        pub fn kind(&self) -> ErrorKind { unimplemented!() }
        #[verifier::external_body]
        pub fn raw_os_error(&self) -> Option<i32> { unimplemented!() }
    }
    }
}
} // verus!
