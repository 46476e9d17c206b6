//! Types shared by the simulator and the adaptors of the three build flavours.
//! Nothing in here is instrumented and nothing in here knows the crate under test.

use std::io::Write;

/// Colour type of a slice request, in the order of `ColorType`
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ct {
    Luma,
    Rgb,
    Rgba,
    Bgr,
    Bgra,
    Ycbcr,
    Cmyk,
    CmykAsYcck,
    Ycck,
}

pub const ALL_CT: [Ct; 9] = [
    Ct::Luma,
    Ct::Rgb,
    Ct::Rgba,
    Ct::Bgr,
    Ct::Bgra,
    Ct::Ycbcr,
    Ct::Cmyk,
    Ct::CmykAsYcck,
    Ct::Ycck,
];

impl Ct {
    pub fn bpp(self) -> usize {
        match self {
            Ct::Luma => 1,
            Ct::Rgb | Ct::Bgr | Ct::Ycbcr => 3,
            _ => 4,
        }
    }
    pub fn jct(self) -> Jct {
        match self {
            Ct::Luma => Jct::Luma,
            Ct::Cmyk => Jct::Cmyk,
            Ct::CmykAsYcck | Ct::Ycck => Jct::Ycck,
            _ => Jct::Ycbcr,
        }
    }
}

/// Colour type of an encoded image
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Jct {
    Luma,
    Ycbcr,
    Cmyk,
    Ycck,
}

impl Jct {
    pub fn comps(self) -> usize {
        match self {
            Jct::Luma => 1,
            Jct::Ycbcr => 3,
            _ => 4,
        }
    }
}

/// The sixteen names of sampling factors with the factors their names or documentation state
pub const SAMPLINGS: [(&str, u8, u8); 16] = [
    ("F_1_1", 1, 1),
    ("F_2_1", 2, 1),
    ("F_1_2", 1, 2),
    ("F_2_2", 2, 2),
    ("F_4_1", 4, 1),
    ("F_4_2", 4, 2),
    ("F_1_4", 1, 4),
    ("F_2_4", 2, 4),
    ("R_4_4_4", 1, 1),
    ("R_4_4_0", 1, 2),
    ("R_4_4_1", 1, 4),
    ("R_4_2_2", 2, 1),
    ("R_4_2_0", 2, 2),
    ("R_4_2_1", 2, 4),
    ("R_4_1_1", 4, 1),
    ("R_4_1_0", 4, 2),
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Qt {
    /// One of the nine predefined tables, in the order of `QuantizationTableType`
    Named(u8),
    Custom(Box<[u16; 64]>),
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Dens {
    None,
    Inch(u16, u16),
    Cm(u16, u16),
}

/// A call on an encoder before its image is encoded
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Density(Dens),
    /// Index into SAMPLINGS
    Sampling(u8),
    Qtables(Qt, Qt),
    Progressive(bool),
    Scans(u8),
    /// A scan count out of range: the documented panic is expected, the encoder stays in use
    BadScans(u8),
    Restart(u16),
    Optimize(bool),
    App(u8, Vec<u8>),
    Icc(Vec<u8>),
    Getters,
    /// Not a call: whatever the simulator wants to happen at this time
    Pause,
}

thread_local! {
    pub static AT_PAUSE: std::cell::RefCell<Option<Box<dyn FnOnce()>>> = const { std::cell::RefCell::new(None) };
}

pub fn pause() {
    let f = AT_PAUSE.with(|x| x.borrow_mut().take());
    if let Some(f) = f {
        f()
    }
}

/// Runs a call on an encoder, on whichever thread the simulator wants
pub static ELSEWHERE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn elsewhere(f: &mut dyn FnMut()) {
    let p = ELSEWHERE.load(std::sync::atomic::Ordering::Relaxed);
    if p == 0 {
        return f();
    }
    let go: fn(&mut dyn FnMut()) = unsafe { std::mem::transmute(p) };
    go(f)
}

/// What the getters of an encoder report
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Getters {
    pub density: Dens,
    pub sampling: u8,
    pub qtables: [Qt; 2],
    pub scans: Option<u8>,
    pub restart: Option<u16>,
    pub optimize: bool,
}

/// Source of rows behind the encoder's ImageBuffer
pub trait Rows {
    fn jct(&self) -> Jct;
    fn width(&self) -> u16;
    fn height(&self) -> u16;
    fn fill(&self, y: u16, buffers: &mut [Vec<u8>; 4]);
}

pub enum Fin<'a> {
    Slice {
        data: &'a [u8],
        w: u16,
        h: u16,
        ct: Ct,
    },
    Image(&'a dyn Rows),
    /// The encoder is dropped without having encoded anything
    Drop,
}

/// A writer that implements the crate's own trait instead of `std::io::Write`
pub trait NsSink {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), EncErr>;
    fn flush(&mut self) -> Result<(), EncErr>;
}

/// The writer an encoder is created with
pub enum Sink<'a> {
    /// `&mut W`
    Ref(&'a mut dyn Write),
    /// `Box<dyn Write>`
    Boxed(Box<dyn Write + 'a>),
    /// An owned writer, passed by value
    Owned(Own<'a>),
    /// `BufWriter<&mut W>` with this capacity, moved into the encoder
    Buf(usize, &'a mut dyn Write),
    /// `&mut BufWriter<&mut W>`: stays with the caller. The number of bytes it still holds when the
    /// encode has returned is stored.
    BufRef(usize, &'a mut dyn Write, &'a mut usize),
    /// BufWriter around BufWriter
    BufBuf(usize, usize, &'a mut dyn Write),
    /// `LineWriter`
    Line(&'a mut dyn Write),
    /// `&mut Vec<u8>`
    Vec(&'a mut Vec<u8>),
    /// `Cursor<&mut Vec<u8>>`
    CursorVec(&'a mut Vec<u8>),
    /// `Cursor<&mut [u8]>`: memory that can be full; stores the position reached
    CursorSlice(&'a mut [u8], &'a mut usize),
    /// `Encoder::new_file`
    File(&'a std::path::Path),
    /// An implementation of `JfifWrite`
    Jfif(&'a mut dyn NsSink),
}

/// A concrete type, so that the encoder is instantiated with an owned writer
pub struct Own<'a>(pub &'a mut dyn Write);

/// Writers and sources that were given to an encoder by value and are not dropped yet
pub static HELD: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);

/// Part of a value given to an encoder
pub struct Token(());

impl Token {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Token {
        HELD.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        Token(())
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        HELD.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
    }
}

impl<'a> Write for Own<'a> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0.write(buf)
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        self.0.write_vectored(bufs)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}

/// Payload of injected errors: identifies the very error object that the sink returned
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SimErr(pub u64);

impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}

impl std::error::Error for SimErr {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EncErr {
    InvalidAppSegment(u8),
    AppSegmentTooLarge(usize),
    IccTooLarge(usize),
    BadImageData {
        length: usize,
        required: usize,
    },
    ZeroImageDimensions {
        width: u16,
        height: u16,
    },
    Io {
        kind: std::io::ErrorKind,
        raw: Option<i32>,
        payload: Option<u64>,
        text: String,
    },
    Write(String),
    /// A variant this adaptor does not know
    Other(String),
}

/// Everything observable about one use of an encoder
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Out {
    /// Error of new_file
    pub open: Option<EncErr>,
    /// One entry for every op that was executed
    pub ops: Vec<Result<(), EncErr>>,
    pub getters: Vec<Getters>,
    /// None if the encoder has been dropped instead of encoding
    pub fin: Option<Result<(), EncErr>>,
}

pub struct Job<'a> {
    pub quality: u8,
    pub ops: &'a [Op],
    pub fin: Fin<'a>,
}

pub fn io_err(e: &std::io::Error) -> EncErr {
    EncErr::Io {
        kind: e.kind(),
        raw: e.raw_os_error(),
        payload: e
            .get_ref()
            .and_then(|r| r.downcast_ref::<SimErr>())
            .map(|s| s.0),
        text: e.to_string(),
    }
}
