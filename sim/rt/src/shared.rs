//! memory shared between a forked run and its parent
pub struct Shared {
    ptr: *mut u8,
    len: usize,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    pub fn new(len: usize) -> Shared {
        let ptr = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(ptr != libc::MAP_FAILED);
        Shared { ptr: ptr as *mut u8, len }
    }
    pub fn clear(&self) {
        unsafe { *(self.ptr as *mut u64) = 0 }
    }
    pub fn write(&self, data: &[u8]) {
        let n = data.len().min(self.len - 16);
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), self.ptr.add(16), n);
            *(self.ptr as *mut u64) = n as u64;
        }
    }
    pub fn read(&self) -> Option<Vec<u8>> {
        unsafe {
            let n = *(self.ptr as *mut u64) as usize;
            if n == 0 {
                return None;
            }
            Some(std::slice::from_raw_parts(self.ptr.add(16), n).to_vec())
        }
    }
    pub fn base(&self) -> *mut u8 {
        self.ptr
    }
    pub fn bytes(&self) -> usize {
        self.len
    }
}
