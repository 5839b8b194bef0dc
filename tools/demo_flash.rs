//! A NOR flash in memory, with power loss, failing accesses and a hook.
#![allow(dead_code)]
use embedded_storage_async::nor_flash::*;
pub use sequential_storage::cache::key_pointers::*;
pub use sequential_storage::cache::page_pointers::*;
pub use sequential_storage::cache::page_states::*;
pub use sequential_storage::cache::*;
pub use sequential_storage::map::*;
pub use sequential_storage::queue::*;
pub use sequential_storage::Error;

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum FE {
    Dead,
    Fault,
    Align,
    Range,
    Twice,
}
impl NorFlashError for FE {
    fn kind(&self) -> NorFlashErrorKind {
        NorFlashErrorKind::Other
    }
}
pub struct Fl<const W: usize, const R: usize, const P: usize> {
    pub mem: Vec<u8>,
    /// bytes that may still be written or erased before the power goes
    pub budget: Option<usize>,
    pub dead: bool,
    pub erases: Vec<usize>,
    pub accesses: usize,
    pub fail_at: Option<usize>,
    /// called before each access: kind, offset
    pub hook: Option<Box<dyn FnMut(char, u32)>>,
    /// called with the data that was read
    pub on_read: Option<Box<dyn FnMut(u32, &mut [u8])>>,
    /// set for every byte written since its last erase
    pub written: Vec<bool>,
    pub check_twice: bool,
}
impl<const W: usize, const R: usize, const P: usize> Fl<W, R, P> {
    pub fn new(pages: usize) -> Self {
        Self::from(vec![0xFF; pages * P])
    }
    pub fn from(mem: Vec<u8>) -> Self {
        let n = mem.len();
        Fl { mem, budget: None, dead: false, erases: vec![0; n / P], accesses: 0, fail_at: None, hook: None, on_read: None, written: vec![false; n], check_twice: false }
    }
    pub fn range(&self) -> core::ops::Range<u32> {
        0..self.mem.len() as u32
    }
    fn pre(&mut self, k: char, at: u32) -> Result<(), FE> {
        if let Some(h) = self.hook.as_mut() {
            h(k, at)
        }
        if self.dead {
            return Err(FE::Dead);
        }
        self.accesses += 1;
        if self.fail_at == Some(self.accesses) {
            return Err(FE::Fault);
        }
        Ok(())
    }
    fn byte(&mut self) -> Result<(), FE> {
        match &mut self.budget {
            Some(0) => {
                self.dead = true;
                Err(FE::Dead)
            }
            Some(n) => {
                *n -= 1;
                Ok(())
            }
            None => Ok(()),
        }
    }
}
impl<const W: usize, const R: usize, const P: usize> ErrorType for Fl<W, R, P> {
    type Error = FE;
}
impl<const W: usize, const R: usize, const P: usize> ReadNorFlash for Fl<W, R, P> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, at: u32, b: &mut [u8]) -> Result<(), FE> {
        self.pre('r', at)?;
        let a = at as usize;
        if a % R != 0 || b.len() % R != 0 {
            return Err(FE::Align);
        }
        if a + b.len() > self.mem.len() {
            return Err(FE::Range);
        }
        b.copy_from_slice(&self.mem[a..a + b.len()]);
        if let Some(h) = self.on_read.as_mut() {
            h(at, b)
        }
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.mem.len()
    }
}
impl<const W: usize, const R: usize, const P: usize> NorFlash for Fl<W, R, P> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = P;
    async fn erase(&mut self, from: u32, to: u32) -> Result<(), FE> {
        self.pre('e', from)?;
        let (f, t) = (from as usize, to as usize);
        if f % P != 0 || t % P != 0 || f > t {
            return Err(FE::Align);
        }
        if t > self.mem.len() {
            return Err(FE::Range);
        }
        for i in f..t {
            self.byte()?;
            self.mem[i] = 0xFF;
            self.written[i] = false;
        }
        for p in f / P..t / P {
            self.erases[p] += 1;
        }
        Ok(())
    }
    async fn write(&mut self, at: u32, b: &[u8]) -> Result<(), FE> {
        self.pre('w', at)?;
        let a = at as usize;
        if a % W != 0 || b.len() % W != 0 {
            return Err(FE::Align);
        }
        if a + b.len() > self.mem.len() {
            return Err(FE::Range);
        }
        for (i, x) in b.iter().enumerate() {
            self.byte()?;
            if self.check_twice && self.written[a + i] && self.mem[a + i] != *x && *x != 0 {
                return Err(FE::Twice);
            }
            self.mem[a + i] &= x;
            self.written[a + i] = true;
        }
        Ok(())
    }
}
impl<const W: usize, const R: usize, const P: usize> MultiwriteNorFlash for Fl<W, R, P> {}

pub fn run<T>(f: impl core::future::Future<Output = T>) -> T {
    let mut f = core::pin::pin!(f);
    let mut cx = core::task::Context::from_waker(core::task::Waker::noop());
    loop {
        if let core::task::Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            return t;
        }
    }
}
pub type Q<const W: usize, const R: usize, const P: usize, C = NoCache> = QueueStorage<Fl<W, R, P>, C>;
pub type NoCache<K = ()> = Cache<Uncached, Uncached, Uncached, K>;
pub fn queue<const W: usize, const R: usize, const P: usize, C: CacheImpl<()>>(f: Fl<W, R, P>, c: C) -> QueueStorage<Fl<W, R, P>, C> {
    let r = f.range();
    QueueStorage::new(f, QueueConfig::new(r), c)
}
pub fn map<const W: usize, const R: usize, const P: usize, C: CacheImpl<u8>>(f: Fl<W, R, P>, c: C) -> MapStorage<u8, Fl<W, R, P>, C> {
    let r = f.range();
    MapStorage::new(f, MapConfig::new(r), c)
}
