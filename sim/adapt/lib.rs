//! Drives one build flavour of the crate under test. Compiled three times; everything generic in the
//! crate under test is instantiated in here so that it carries the edge instrumentation.

use jpeg_encoder as je;
use simapi::*;
#[cfg(feature = "stdio")]
use std::io::{BufWriter, Cursor, LineWriter, Write};

/// Whether an error says what it is about: its message names the values, and the error of the writer
/// can be found with the means of the standard library
fn says(e: &je::EncodingError) -> bool {
    let text = e.to_string();
    let named = |v: usize| {
        text.split(|c: char| !c.is_ascii_digit())
            .any(|n| n.parse() == Ok(v))
    };
    match e {
        je::EncodingError::InvalidAppSegment(n) => named(*n as usize),
        je::EncodingError::AppSegmentTooLarge(n) => named(*n),
        je::EncodingError::IccTooLarge(n) => named(*n),
        je::EncodingError::BadImageData { length, required } => named(*length) && named(*required),
        je::EncodingError::ZeroImageDimensions { width, height } => {
            named(*width as usize) && named(*height as usize)
        }
        #[cfg(feature = "stdio")]
        je::EncodingError::IoError(io) => {
            let found = std::error::Error::source(e)
                .and_then(|s| s.downcast_ref::<std::io::Error>())
                .map(io_err);
            found == Some(io_err(io)) && text.contains(&io.to_string())
        }
        je::EncodingError::Write(s) => text.contains(s),
        #[allow(unreachable_patterns)]
        _ => true,
    }
}

fn err(e: je::EncodingError) -> EncErr {
    if !says(&e) {
        return EncErr::Other(format!("{:?} reads {:?} or hides its source", e, e.to_string()));
    }
    match e {
        je::EncodingError::InvalidAppSegment(n) => EncErr::InvalidAppSegment(n),
        je::EncodingError::AppSegmentTooLarge(n) => EncErr::AppSegmentTooLarge(n),
        je::EncodingError::IccTooLarge(n) => EncErr::IccTooLarge(n),
        je::EncodingError::BadImageData { length, required } => {
            EncErr::BadImageData { length, required }
        }
        je::EncodingError::ZeroImageDimensions { width, height } => {
            EncErr::ZeroImageDimensions { width, height }
        }
        #[cfg(feature = "stdio")]
        je::EncodingError::IoError(e) => io_err(&e),
        je::EncodingError::Write(s) => EncErr::Write(s),
        #[allow(unreachable_patterns)]
        e => EncErr::Other(format!("{:?}", e)),
    }
}

fn sampling(i: u8) -> je::SamplingFactor {
    use je::SamplingFactor::*;
    [
        F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2,
        R_4_2_0, R_4_2_1, R_4_1_1, R_4_1_0,
    ][i as usize]
}

fn qtable(q: &Qt) -> je::QuantizationTableType {
    use je::QuantizationTableType as T;
    match q {
        Qt::Named(0) => T::Default,
        Qt::Named(1) => T::Flat,
        Qt::Named(2) => T::CustomMsSsim,
        Qt::Named(3) => T::CustomPsnrHvs,
        Qt::Named(4) => T::ImageMagick,
        Qt::Named(5) => T::KleinSilversteinCarney,
        Qt::Named(6) => T::DentalXRays,
        Qt::Named(7) => T::VisualDetectionModel,
        Qt::Named(_) => T::ImprovedDetectionModel,
        Qt::Custom(t) => T::Custom(t.clone()),
    }
}

fn qtable_back(q: &je::QuantizationTableType) -> Qt {
    use je::QuantizationTableType as T;
    match q {
        T::Default => Qt::Named(0),
        T::Flat => Qt::Named(1),
        T::CustomMsSsim => Qt::Named(2),
        T::CustomPsnrHvs => Qt::Named(3),
        T::ImageMagick => Qt::Named(4),
        T::KleinSilversteinCarney => Qt::Named(5),
        T::DentalXRays => Qt::Named(6),
        T::VisualDetectionModel => Qt::Named(7),
        T::ImprovedDetectionModel => Qt::Named(8),
        T::Custom(t) => Qt::Custom(t.clone()),
    }
}

fn dens(d: Dens) -> je::Density {
    match d {
        Dens::None => je::Density::None,
        Dens::Inch(x, y) => je::Density::Inch { x, y },
        Dens::Cm(x, y) => je::Density::Centimeter { x, y },
    }
}

/// One pixel in the colours it is encoded in
pub fn convert(ct: Ct, p: &[u8]) -> [u8; 4] {
    let ycc = |r: u8, g: u8, b: u8| {
        let (y, cb, cr) = je::rgb_to_ycbcr(r, g, b);
        [y, cb, cr, 0]
    };
    match ct {
        Ct::Luma => [p[0], 0, 0, 0],
        Ct::Rgb | Ct::Rgba => ycc(p[0], p[1], p[2]),
        Ct::Bgr | Ct::Bgra => ycc(p[2], p[1], p[0]),
        Ct::Ycbcr => [p[0], p[1], p[2], 0],
        Ct::Cmyk => [255 - p[0], 255 - p[1], 255 - p[2], 255 - p[3]],
        Ct::CmykAsYcck => {
            let (y, cb, cr, k) = je::cmyk_to_ycck(p[0], p[1], p[2], p[3]);
            [y, cb, cr, k]
        }
        Ct::Ycck => [p[0], p[1], p[2], p[3]],
    }
}

struct Img<'a>(&'a dyn Rows, #[allow(dead_code)] Token);

impl<'a> je::ImageBuffer for Img<'a> {
    fn get_jpeg_color_type(&self) -> je::JpegColorType {
        match self.0.jct() {
            Jct::Luma => je::JpegColorType::Luma,
            Jct::Ycbcr => je::JpegColorType::Ycbcr,
            Jct::Cmyk => je::JpegColorType::Cmyk,
            Jct::Ycck => je::JpegColorType::Ycck,
        }
    }
    fn width(&self) -> u16 {
        self.0.width()
    }
    fn height(&self) -> u16 {
        self.0.height()
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        self.0.fill(y, buffers)
    }
}

fn drive<W: je::JfifWrite>(mut e: je::Encoder<W>, job: &Job, out: &mut Out) {
    for op in job.ops {
        if *op == Op::Pause {
            pause();
            out.ops.push(Ok(()));
            continue;
        }
        elsewhere(&mut || configure(&mut e, op, out));
    }

    let mut e = Some(e);
    elsewhere(&mut || {
        let e = e.take().unwrap();
        out.fin = match &job.fin {
        Fin::Drop => {
            drop(e);
            None
        }
        Fin::Slice { data, w, h, ct } => {
            use je::ColorType as C;
            let c = match ct {
                Ct::Luma => C::Luma,
                Ct::Rgb => C::Rgb,
                Ct::Rgba => C::Rgba,
                Ct::Bgr => C::Bgr,
                Ct::Bgra => C::Bgra,
                Ct::Ycbcr => C::Ycbcr,
                Ct::Cmyk => C::Cmyk,
                Ct::CmykAsYcck => C::CmykAsYcck,
                Ct::Ycck => C::Ycck,
            };
            Some(e.encode(data, *w, *h, c).map_err(err))
        }
        Fin::Image(rows) => Some(e.encode_image(Img(*rows, Token::new())).map_err(err)),
    };
    });
}

fn configure<W: je::JfifWrite>(e: &mut je::Encoder<W>, op: &Op, out: &mut Out) {
        let r = match op {
            Op::Density(d) => {
                e.set_density(dens(*d));
                Ok(())
            }
            Op::Sampling(i) => {
                e.set_sampling_factor(sampling(*i));
                Ok(())
            }
            Op::Qtables(a, b) => {
                e.set_quantization_tables(qtable(a), qtable(b));
                Ok(())
            }
            Op::Progressive(p) => {
                e.set_progressive(*p);
                Ok(())
            }
            Op::Scans(n) => {
                e.set_progressive_scans(*n);
                Ok(())
            }
            Op::BadScans(n) => std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                e.set_progressive_scans(*n)
            }))
            .map_err(|_| EncErr::Other("panic".into())),
            Op::Restart(n) => {
                e.set_restart_interval(*n);
                Ok(())
            }
            Op::Optimize(o) => {
                e.set_optimized_huffman_tables(*o);
                Ok(())
            }
            Op::App(n, d) => e.add_app_segment(*n, d).map_err(err),
            Op::Pause => unreachable!(),
            Op::Icc(d) => e.add_icc_profile(d).map_err(err),
            Op::Getters => {
                out.getters.push(Getters {
                    density: match e.density() {
                        je::Density::None => Dens::None,
                        je::Density::Inch { x, y } => Dens::Inch(x, y),
                        je::Density::Centimeter { x, y } => Dens::Cm(x, y),
                    },
                    sampling: {
                        let s = e.sampling_factor();
                        (0..16).find(|&i| sampling(i) == s).unwrap_or(255)
                    },
                    qtables: [
                        qtable_back(&e.quantization_tables()[0]),
                        qtable_back(&e.quantization_tables()[1]),
                    ],
                    scans: e.progressive_scans(),
                    restart: e.restart_interval(),
                    optimize: e.optimized_huffman_tables(),
                });
                Ok(())
            }
        };
        out.ops.push(r);
}

#[cfg(feature = "stdio")]
fn boxed<'a>(w: Box<dyn Write + 'a>, job: &Job, out: &mut Out) {
    drive(je::Encoder::new(w, job.quality), job, out)
}

#[cfg(feature = "stdio")]
#[inline(never)]
pub fn run(sink: Sink, job: &Job, out: &mut Out) {
    let q = job.quality;
    // Few concrete writer types keep the build fast; every Box<dyn Write> goes through the same
    // instance of the encoder and is dropped with it like an owned writer.
    match sink {
        Sink::Ref(w) => drive(je::Encoder::new(w, q), job, out),
        Sink::Vec(v) => drive(je::Encoder::new(v, q), job, out),
        Sink::Boxed(w) => drive(je::Encoder::new(w, q), job, out),
        Sink::Owned(w) => boxed(Box::new(Held(w, Token::new())), job, out),
        Sink::Buf(cap, w) => boxed(Box::new(BufWriter::with_capacity(cap, Held(w, Token::new()))), job, out),
        Sink::BufRef(cap, w, left) => {
            let mut b = BufWriter::with_capacity(cap, w);
            drive(je::Encoder::new(&mut b as &mut dyn Write, q), job, out);
            *left = b.buffer().len();
            // What the encoder left behind is lost, just as with a forgotten writer
            let _ = b.into_parts();
        }
        Sink::BufBuf(a, b, w) => {
            let inner = BufWriter::with_capacity(a, w);
            boxed(Box::new(BufWriter::with_capacity(b, inner)), job, out)
        }
        Sink::Line(w) => boxed(Box::new(LineWriter::new(w)), job, out),
        Sink::CursorVec(v) => boxed(Box::new(Cursor::new(v)), job, out),
        Sink::CursorSlice(s, pos) => {
            let mut c = Cursor::new(s);
            drive(je::Encoder::new(&mut c as &mut dyn Write, q), job, out);
            *pos = c.position() as usize;
        }
        Sink::File(p) => match je::Encoder::new_file(p, q) {
            Ok(e) => drive(e, job, out),
            Err(e) => out.open = Some(err(e)),
        },
        Sink::Jfif(w) => drive(je::Encoder::new(Ns(w, Token::new()), q), job, out),
    }
}

struct Ns<'a>(&'a mut dyn NsSink, #[allow(dead_code)] Token);

/// A writer passed by value
#[cfg(feature = "stdio")]
struct Held<W>(W, #[allow(dead_code)] Token);

#[cfg(feature = "stdio")]
impl<W: Write> Write for Held<W> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.write(b)
    }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        self.0.write_vectored(bufs)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.flush()
    }
}


impl<'a> je::JfifWrite for Ns<'a> {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), je::EncodingError> {
        self.0.write_all(buf).map_err(ns_err)
    }
    fn flush(&mut self) -> Result<(), je::EncodingError> {
        self.0.flush().map_err(ns_err)
    }
}

fn ns_err(e: EncErr) -> je::EncodingError {
    match e {
        EncErr::Write(s) => je::EncodingError::Write(s),
        EncErr::InvalidAppSegment(n) => je::EncodingError::InvalidAppSegment(n),
        e => je::EncodingError::Write(format!("{:?}", e)),
    }
}

#[cfg(not(feature = "stdio"))]
#[inline(never)]
pub fn run(sink: Sink, job: &Job, out: &mut Out) {
    let q = job.quality;
    match sink {
        // Owned, borrowed as a trait object, borrowed twice
        Sink::Jfif(w) => match (job.ops.len() + q as usize) % 3 {
            0 => drive(je::Encoder::new(Ns(w, Token::new()), q), job, out),
            1 => drive(je::Encoder::new(&mut Ns(w, Token::new()) as &mut dyn je::JfifWrite, q), job, out),
            _ => drive(je::Encoder::new(&mut &mut Ns(w, Token::new()), q), job, out),
        },
        Sink::Vec(v) => drive(je::Encoder::new(v, q), job, out),
        _ => unreachable!(),
    }
}

/// Hides AVX2 from the crate under test or shows it again
pub fn hide_avx2(_hide: bool) {
    #[cfg(feature = "simd")]
    je::AVX2_HIDDEN.store(_hide, std::sync::atomic::Ordering::Relaxed);
}
