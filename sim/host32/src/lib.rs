//! Guest side of the simulated 32-bit host. Everything it needs from outside (memory, writer, row
//! source) are calls to fixed addresses where ../../src/host32.rs has put its trampolines.
#![no_std]

extern crate alloc;

use alloc::string::String;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use guest::{drive, In, Log};
use jpeg_encoder as je;

mod guest;

extern "C" {
    fn h_alloc(size: usize, align: usize) -> *mut u8;
    fn h_free(p: *mut u8, size: usize, align: usize);
    fn h_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    fn h_panic(text: *const u8, len: usize) -> !;
    /// 0: done, 1: failed with a text, 2 + 256 n: failed with InvalidAppSegment(n)
    fn h_write(p: *const u8, len: usize) -> u32;
    fn h_flush() -> u32;
    fn h_error(p: *mut u8, len: usize) -> usize;
    /// Four pairs of address and length
    fn h_row(y: u32) -> *const [usize; 8];
    /// Everything about the end of the run
    fn h_done(p: *const u8, len: usize);
    fn h_memory(p: *const u8, len: usize);
    fn h_guards(start: *mut u32, stop: *mut u32);
    static mut __start___sancov_guards: u32;
    static mut __stop___sancov_guards: u32;
}

struct Heap;

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        h_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        h_free(p, l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        h_realloc(p, l.size(), l.align(), new)
    }
}

#[global_allocator]
static HEAP: Heap = Heap;

struct Text([u8; 300], usize);

impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let n = s.len().min(self.0.len() - self.1);
        self.0[self.1..self.1 + n].copy_from_slice(&s.as_bytes()[..n]);
        self.1 += n;
        Ok(())
    }
}

#[panic_handler]
fn panicked(i: &core::panic::PanicInfo) -> ! {
    let mut t = Text([0; 300], 0);
    let _ = core::fmt::write(&mut t, format_args!("{}", i.message()));
    if let Some(l) = i.location() {
        let _ = core::fmt::write(&mut t, format_args!(" at {}:{}", l.file(), l.line()));
    }
    unsafe { h_panic(t.0.as_ptr(), t.1) }
}

struct W;

fn status(code: u32) -> Result<(), je::EncodingError> {
    match code & 255 {
        0 => Ok(()),
        1 => {
            let mut b = [0u8; 256];
            let n = unsafe { h_error(b.as_mut_ptr(), b.len()) };
            Err(je::EncodingError::Write(String::from_utf8_lossy(&b[..n]).into_owned()))
        }
        _ => Err(je::EncodingError::InvalidAppSegment((code >> 8) as u8)),
    }
}

impl je::JfifWrite for W {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), je::EncodingError> {
        status(unsafe { h_write(buf.as_ptr(), buf.len()) })
    }
    fn flush(&mut self) -> Result<(), je::EncodingError> {
        status(unsafe { h_flush() })
    }
}

struct Img {
    color: u8,
    w: u16,
    h: u16,
}

impl je::ImageBuffer for Img {
    fn get_jpeg_color_type(&self) -> je::JpegColorType {
        [
            je::JpegColorType::Luma,
            je::JpegColorType::Ycbcr,
            je::JpegColorType::Cmyk,
            je::JpegColorType::Ycck,
        ][self.color as usize]
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let d = unsafe { &*h_row(y as u32) };
        for i in 0..4 {
            if d[2 * i + 1] > 0 {
                let s = unsafe { core::slice::from_raw_parts(d[2 * i] as *const u8, d[2 * i + 1]) };
                buffers[i].extend_from_slice(s);
            }
        }
    }
}

/// The data lies elsewhere, with nothing accessible around it
fn data(job: &mut In) -> &'static [u8] {
    let p = job.u32();
    let n = job.u32();
    unsafe { core::slice::from_raw_parts(p as *const u8, n as usize) }
}

fn image(_job: &mut In, color: u8, w: u16, h: u16) -> Img {
    Img { color, w, h }
}

/// kind 0: start of the machine; 1: one use of an encoder
#[no_mangle]
pub extern "C" fn g_entry(kind: u32, p: *const u8, len: usize) {
    if kind == 0 {
        unsafe {
            h_guards(
                core::ptr::addr_of_mut!(__start___sancov_guards),
                core::ptr::addr_of_mut!(__stop___sancov_guards),
            );
        }
        return;
    }
    let mut job = In(unsafe { core::slice::from_raw_parts(p, len) });
    let mut log = Log(Vec::new());
    let quality = job.u8();
    if job.u8() == 0 {
        match len % 3 {
            0 => drive(je::Encoder::new(W, quality), &mut job, &mut log),
            1 => drive(je::Encoder::new(&mut W as &mut dyn je::JfifWrite, quality), &mut job, &mut log),
            _ => drive(je::Encoder::new(&mut &mut W, quality), &mut job, &mut log),
        }
    } else {
        let mut v = Vec::new();
        drive(je::Encoder::new(&mut v, quality), &mut job, &mut log);
        unsafe { h_memory(v.as_ptr(), v.len()) };
    }
    unsafe { h_done(log.0.as_ptr(), log.0.len()) };
}
