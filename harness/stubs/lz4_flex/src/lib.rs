//! LZ4 blocks of literals only: valid, but never with a match. The search for
//! matches indexes a table by a hash of the data, which symbolic data cannot
//! afford; the harnesses of the compressions themselves use the real crate.
pub mod block {
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum DecompressError {
        OutputTooSmall { expected: usize, actual: usize },
        LiteralOutOfBounds,
        ExpectedAnotherByte,
        OffsetOutOfBounds,
    }
    impl core::fmt::Display for DecompressError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("lz4")
        }
    }
    impl std::error::Error for DecompressError {}
    #[derive(Debug)]
    #[non_exhaustive]
    pub enum CompressError {
        OutputTooSmall,
    }
    impl core::fmt::Display for CompressError {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("lz4")
        }
    }
    impl std::error::Error for CompressError {}
    pub fn get_maximum_output_size(n: usize) -> usize {
        16 + 4 + n * 110 / 100
    }
    pub fn compress(input: &[u8]) -> Vec<u8> {
        let mut o = vec![];
        if input.len() < 15 {
            o.push((input.len() as u8) << 4);
        } else {
            o.push(0xf0);
            let mut n = input.len() - 15;
            while n >= 255 {
                o.push(255);
                n -= 255;
            }
            o.push(n as u8);
        }
        o.extend_from_slice(input);
        o
    }
    pub fn compress_into(input: &[u8], output: &mut [u8]) -> Result<usize, CompressError> {
        let c = compress(input);
        if c.len() > output.len() {
            return Err(CompressError::OutputTooSmall);
        }
        output[..c.len()].copy_from_slice(&c);
        Ok(c.len())
    }
    pub fn compress_prepend_size(input: &[u8]) -> Vec<u8> {
        let mut o = (input.len() as u32).to_le_bytes().to_vec();
        o.extend(compress(input));
        o
    }
    pub fn decompress(input: &[u8], max: usize) -> Result<Vec<u8>, DecompressError> {
        use DecompressError::*;
        let mut o: Vec<u8> = vec![];
        let mut i = 0;
        let mut next = || {
            i += 1;
            input.get(i - 1).copied().ok_or(ExpectedAnotherByte).map(|b| (b, i))
        };
        loop {
            let (t, mut at) = next()?;
            let mut n = (t >> 4) as usize;
            if n == 15 {
                loop {
                    let (b, a) = next()?;
                    at = a;
                    n += b as usize;
                    if b != 255 {
                        break;
                    }
                }
            }
            let Some(l) = input.get(at..at + n) else { return Err(LiteralOutOfBounds) };
            o.extend_from_slice(l);
            if o.len() > max {
                return Err(OutputTooSmall { expected: o.len(), actual: max });
            }
            for _ in 0..n {
                next()?;
            }
            if at + n == input.len() {
                return Ok(o);
            }
            let ((a, _), (b, _)) = (next()?, next()?);
            let off = u16::from_le_bytes([a, b]) as usize;
            let mut m = (t & 15) as usize + 4;
            if m == 19 {
                loop {
                    let (b, _) = next()?;
                    m += b as usize;
                    if b != 255 {
                        break;
                    }
                }
            }
            if off == 0 || off > o.len() {
                return Err(OffsetOutOfBounds);
            }
            for _ in 0..m {
                o.push(o[o.len() - off]);
            }
            if o.len() > max {
                return Err(OutputTooSmall { expected: o.len(), actual: max });
            }
        }
    }
    pub fn decompress_into(input: &[u8], output: &mut [u8]) -> Result<usize, DecompressError> {
        let d = decompress(input, output.len())?;
        output[..d.len()].copy_from_slice(&d);
        Ok(d.len())
    }
    pub fn decompress_size_prepended(input: &[u8]) -> Result<Vec<u8>, DecompressError> {
        let Some(n) = input.get(..4) else { return Err(DecompressError::ExpectedAnotherByte) };
        decompress(&input[4..], u32::from_le_bytes([n[0], n[1], n[2], n[3]]) as usize)
    }
}
pub use block::{compress, compress_into, compress_prepend_size, decompress, decompress_into, decompress_size_prepended};
