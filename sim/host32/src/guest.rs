//! Reads a request and does what it says with an encoder; common to the simulated hosts.

use crate::{data, image};
use alloc::boxed::Box;
use alloc::format;
use alloc::vec::Vec;
use jpeg_encoder as je;

pub struct In(pub &'static [u8]);

impl In {
    pub fn u8(&mut self) -> u8 {
        let v = self.0[0];
        self.0 = &self.0[1..];
        v
    }
    pub fn u16(&mut self) -> u16 {
        self.u8() as u16 | (self.u8() as u16) << 8
    }
    pub fn u32(&mut self) -> u32 {
        self.u16() as u32 | (self.u16() as u32) << 16
    }
    fn table(&mut self) -> je::QuantizationTableType {
        use je::QuantizationTableType as T;
        match self.u8() {
            0 => T::Default,
            1 => T::Flat,
            2 => T::CustomMsSsim,
            3 => T::CustomPsnrHvs,
            4 => T::ImageMagick,
            5 => T::KleinSilversteinCarney,
            6 => T::DentalXRays,
            7 => T::VisualDetectionModel,
            8 => T::ImprovedDetectionModel,
            _ => {
                let mut t = Box::new([0u16; 64]);
                for v in t.iter_mut() {
                    *v = self.u16();
                }
                T::Custom(t)
            }
        }
    }
}

fn sampling(i: u8) -> je::SamplingFactor {
    use je::SamplingFactor::*;
    [
        F_1_1, F_2_1, F_1_2, F_2_2, F_4_1, F_4_2, F_1_4, F_2_4, R_4_4_4, R_4_4_0, R_4_4_1, R_4_2_2,
        R_4_2_0, R_4_2_1, R_4_1_1, R_4_1_0,
    ][i as usize]
}

pub struct Log(pub Vec<u8>);

impl Log {
    fn u16(&mut self, v: u16) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn u32(&mut self, v: usize) {
        self.0.extend_from_slice(&(v as u32).to_le_bytes());
    }
    fn text(&mut self, s: &str) {
        self.u32(s.len());
        self.0.extend_from_slice(s.as_bytes());
    }
    fn table(&mut self, t: &je::QuantizationTableType) {
        use je::QuantizationTableType as T;
        let n = match t {
            T::Default => 0,
            T::Flat => 1,
            T::CustomMsSsim => 2,
            T::CustomPsnrHvs => 3,
            T::ImageMagick => 4,
            T::KleinSilversteinCarney => 5,
            T::DentalXRays => 6,
            T::VisualDetectionModel => 7,
            T::ImprovedDetectionModel => 8,
            T::Custom(t) => {
                self.0.push(9);
                for &v in t.iter() {
                    self.u16(v);
                }
                return;
            }
        };
        self.0.push(n);
    }
    fn result(&mut self, r: Result<(), je::EncodingError>) {
        use je::EncodingError as E;
        match r {
            Ok(()) => self.0.push(0),
            Err(E::InvalidAppSegment(n)) => {
                self.0.push(1);
                self.u32(n as usize);
            }
            Err(E::AppSegmentTooLarge(n)) => {
                self.0.push(2);
                self.u32(n);
            }
            Err(E::IccTooLarge(n)) => {
                self.0.push(3);
                self.u32(n);
            }
            Err(E::BadImageData { length, required }) => {
                self.0.push(4);
                self.u32(length);
                self.u32(required);
            }
            Err(E::ZeroImageDimensions { width, height }) => {
                self.0.push(5);
                self.u32(width as usize);
                self.u32(height as usize);
            }
            Err(E::Write(s)) => {
                self.0.push(6);
                self.text(&s);
            }
            #[allow(unreachable_patterns)]
            Err(e) => {
                self.0.push(7);
                self.text(&format!("{:?}", e));
            }
        }
    }
}

pub fn drive<T: je::JfifWrite>(mut e: je::Encoder<T>, job: &mut In, log: &mut Log) {
    for _ in 0..job.u16() {
        let r = match job.u8() {
            0 => {
                let k = job.u8();
                let (x, y) = (job.u16(), job.u16());
                e.set_density(match k {
                    0 => je::Density::None,
                    1 => je::Density::Inch { x, y },
                    _ => je::Density::Centimeter { x, y },
                });
                Ok(())
            }
            1 => {
                e.set_sampling_factor(sampling(job.u8()));
                Ok(())
            }
            2 => {
                let a = job.table();
                let b = job.table();
                e.set_quantization_tables(a, b);
                Ok(())
            }
            3 => {
                e.set_progressive(job.u8() != 0);
                Ok(())
            }
            4 => {
                e.set_progressive_scans(job.u8());
                Ok(())
            }
            5 => {
                e.set_restart_interval(job.u16());
                Ok(())
            }
            6 => {
                e.set_optimized_huffman_tables(job.u8() != 0);
                Ok(())
            }
            7 => {
                let n = job.u8();
                let d = data(job);
                e.add_app_segment(n, d)
            }
            8 => {
                let d = data(job);
                e.add_icc_profile(d)
            }
            _ => {
                log.0.push(8);
                match e.density() {
                    je::Density::None => {
                        log.0.push(0);
                        log.u16(0);
                        log.u16(0);
                    }
                    je::Density::Inch { x, y } => {
                        log.0.push(1);
                        log.u16(x);
                        log.u16(y);
                    }
                    je::Density::Centimeter { x, y } => {
                        log.0.push(2);
                        log.u16(x);
                        log.u16(y);
                    }
                }
                let s = e.sampling_factor();
                log.0.push((0..16).find(|&i| sampling(i) == s).unwrap_or(255));
                let [a, b] = e.quantization_tables();
                log.table(a);
                log.table(b);
                log.0.push(e.progressive_scans().unwrap_or(0));
                log.0.push(e.restart_interval().is_some() as u8);
                log.u16(e.restart_interval().unwrap_or(0));
                log.0.push(e.optimized_huffman_tables() as u8);
                continue;
            }
        };
        log.result(r);
    }
    let r = match job.u8() {
        0 => {
            use je::ColorType as C;
            let (w, h, c) = (job.u16(), job.u16(), job.u8());
            let c = [
                C::Luma, C::Rgb, C::Rgba, C::Bgr, C::Bgra, C::Ycbcr, C::Cmyk, C::CmykAsYcck, C::Ycck,
            ][c as usize];
            let d = data(job);
            e.encode(d, w, h, c)
        }
        1 => {
            let (w, h, color) = (job.u16(), job.u16(), job.u8());
            let i = image(job, color, w, h);
            e.encode_image(i)
        }
        _ => {
            drop(e);
            log.0.push(9);
            return;
        }
    };
    log.result(r);
}
