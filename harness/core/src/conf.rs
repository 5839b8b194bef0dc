//! C22: configurations.
use crate::sym::*;
use crate::*;
use embedded_storage_async::nor_flash::{ErrorType, MultiwriteNorFlash, NorFlash, ReadNorFlash};
use sequential_storage::map::MapConfig;
use sequential_storage::queue::QueueConfig;

/// a flash that is only a geometry
struct G<const W: usize, const R: usize, const E: usize>;
impl<const W: usize, const R: usize, const E: usize> ErrorType for G<W, R, E> {
    type Error = core::convert::Infallible;
}
impl<const W: usize, const R: usize, const E: usize> ReadNorFlash for G<W, R, E> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, _: u32, _: &mut [u8]) -> Result<(), Self::Error> {
        fail(F_RULE)
    }
    fn capacity(&self) -> usize {
        usize::MAX
    }
}
impl<const W: usize, const R: usize, const E: usize> NorFlash for G<W, R, E> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = E;
    async fn erase(&mut self, _: u32, _: u32) -> Result<(), Self::Error> {
        fail(F_RULE)
    }
    async fn write(&mut self, _: u32, _: &[u8]) -> Result<(), Self::Error> {
        fail(F_RULE)
    }
}
impl<const W: usize, const R: usize, const E: usize> MultiwriteNorFlash for G<W, R, E> {}

fn valid<const W: usize, const R: usize, const E: usize>(start: u32, end: u32, pages: u64) -> bool {
    let word = if W > R { W } else { R } as u64;
    let e = E as u64;
    // two markers, an item header and one word of data
    let fits = e >= 3 * word + 8u64.next_multiple_of(word);
    fits & (word <= 32) & (start as u64 % e == 0) & (end as u64 % e == 0) & (end as u64 >= start as u64 + pages * e)
}
fn conf<const W: usize, const R: usize, const E: usize>() {
    let (start, end) = (u32(), u32());
    let q = QueueConfig::<G<W, R, E>>::try_new(start..end);
    let want = valid::<W, R, E>(start, end, 1);
    check(!(q.is_ok() & !want), F_ACCEPT);
    check(!(q.is_err() & want), F_REJECT);
    cover(q.is_ok() as u32);
    let m = MapConfig::<G<W, R, E>>::try_new(start..end);
    let want = valid::<W, R, E>(start, end, 2);
    check(!(m.is_ok() & !want), F_ACCEPT);
    check(!(m.is_err() & want), F_REJECT);
    cover(2 + m.is_ok() as u32);
}
macro_rules! table {
    ($a:ident, $($n:literal: $w:literal $r:literal $e:literal),* $(,)?) => {
        match $a { $($n => conf::<$w, $r, $e>(),)* _ => fail(0) }
    };
}
pub fn c22(a: u64) {
    table!(a,
        0: 1 1 11, 1: 1 1 10, 2: 2 1 14, 3: 2 1 12, 4: 4 1 20, 5: 4 4 16, 6: 8 1 32, 7: 8 8 24, 8: 16 4 64, 9: 16 1 48, 10: 32 1 128, 11: 32 32 96, 12: 1 32 128, 13: 4 16 48,
        14: 64 1 4096, 15: 1 64 4096, 16: 1 1 4096, 17: 4 4 4096, 18: 8 4 8192, 19: 4 1 65536, 20: 32 1 131072, 21: 4 4 0x1000_0000, 22: 4 4 0x8000_0000, 23: 4 4 24, 24: 4 1 0x3000)
}
