//! Guest side of the simulated big-endian host. Requests come in and results go out through pipes.
#![no_std]
#![no_main]

extern crate alloc;

use alloc::string::String;
use alloc::vec::Vec;
use core::alloc::{GlobalAlloc, Layout};
use guest::{drive, In, Log};
use jpeg_encoder as je;

#[path = "../../host32/src/guest.rs"]
mod guest;

extern "Rust" {
    fn miri_alloc(size: usize, align: usize) -> *mut u8;
    fn miri_dealloc(p: *mut u8, size: usize, align: usize);
}

extern "C" {
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn exit(code: i32) -> !;
}

struct Heap;

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        miri_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        miri_dealloc(p, l.size(), l.align())
    }
}

#[global_allocator]
static HEAP: Heap = Heap;

fn send(kind: u8, d: &[u8]) {
    let mut v = Vec::new();
    v.push(kind);
    v.extend_from_slice(&(d.len() as u32).to_le_bytes());
    v.extend_from_slice(d);
    let mut d = &v[..];
    while !d.is_empty() {
        let n = unsafe { write(1, d.as_ptr(), d.len()) };
        if n <= 0 {
            unsafe { exit(3) }
        }
        d = &d[n as usize..];
    }
}

#[panic_handler]
fn panicked(i: &core::panic::PanicInfo) -> ! {
    send(2, alloc::format!("{}", i).as_bytes());
    unsafe { exit(0) }
}

/// Fails with this number of bytes accepted; nothing of the request fails without one
struct W {
    data: Vec<u8>,
    room: usize,
}

impl je::JfifWrite for W {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), je::EncodingError> {
        let n = buf.len().min(self.room - self.data.len());
        self.data.extend_from_slice(&buf[..n]);
        if n < buf.len() {
            return Err(je::EncodingError::Write(String::from("full")));
        }
        Ok(())
    }
}

struct Img {
    color: u8,
    w: u16,
    h: u16,
    data: &'static [u8],
}

impl je::ImageBuffer for Img {
    fn get_jpeg_color_type(&self) -> je::JpegColorType {
        [
            je::JpegColorType::Luma,
            je::JpegColorType::Ycbcr,
            je::JpegColorType::Cmyk,
            je::JpegColorType::Ycck,
        ][self.color as usize]
    }
    fn width(&self) -> u16 {
        self.w
    }
    fn height(&self) -> u16 {
        self.h
    }
    fn fill_buffers(&self, y: u16, buffers: &mut [Vec<u8>; 4]) {
        let n = [1, 3, 4, 4][self.color as usize];
        let w = self.w as usize;
        for p in self.data[y as usize * w * n..][..w * n].chunks(n) {
            for (b, &v) in buffers.iter_mut().zip(p) {
                b.push(v);
            }
        }
    }
}

fn data(job: &mut In) -> &'static [u8] {
    let n = job.u32() as usize;
    let (d, rest) = job.0.split_at(n);
    job.0 = rest;
    d
}

fn image(job: &mut In, color: u8, w: u16, h: u16) -> Img {
    Img { color, w, h, data: data(job) }
}

fn receive(n: usize) -> Vec<u8> {
    let mut v = alloc::vec![0; n];
    let mut at = 0;
    while at < n {
        let k = unsafe { read(0, v[at..].as_mut_ptr(), n - at) };
        if k <= 0 {
            unsafe { exit(0) }
        }
        at += k as usize;
    }
    v
}

#[no_mangle]
fn miri_start(_argc: isize, _argv: *const *const u8) -> isize {
    loop {
        let n = receive(4);
        let n = u32::from_le_bytes([n[0], n[1], n[2], n[3]]) as usize;
        let mut job = In(Vec::leak(receive(n)));
        let mut log = Log(Vec::new());
        let quality = job.u8();
        let room = job.u32() as usize;
        let mut w = W { data: Vec::new(), room };
        drive(je::Encoder::new(&mut w, quality), &mut job, &mut log);
        send(0, &log.0);
        send(1, &w.data);
    }
}
