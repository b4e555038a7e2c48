//! Reads the symbol table of this executable, to know which basic blocks belong to the library and which are atomics.
use std::collections::BTreeMap;

fn u64a(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn u32a(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u16a(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
/// address -> (size, name) of the functions of /proc/self/exe (unrelocated addresses)
pub fn functions() -> BTreeMap<u64, (u64, String)> {
    let mut m = BTreeMap::new();
    let Ok(b) = std::fs::read("/proc/self/exe") else { return m };
    let shoff = u64a(&b, 0x28) as usize;
    let (esz, n) = (u16a(&b, 0x3a) as usize, u16a(&b, 0x3c) as usize);
    for i in 0..n {
        let s = shoff + i * esz;
        if u32a(&b, s + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64a(&b, s + 0x18) as usize, u64a(&b, s + 0x20) as usize, u32a(&b, s + 0x28) as usize);
        let st = u64a(&b, shoff + link * esz + 0x18) as usize;
        let mut o = off;
        while o < off + size {
            if b[o + 4] & 0xf == 2 {
                let nm = st + u32a(&b, o) as usize;
                let e = b[nm..].iter().position(|&c| c == 0).unwrap_or(0);
                m.insert(u64a(&b, o + 8), (u64a(&b, o + 16), String::from_utf8_lossy(&b[nm..nm + e]).into_owned()));
            }
            o += 24;
        }
    }
    m
}

pub const OTHER: u8 = 0;
pub const LIB: u8 = 1;
pub const ATOMIC: u8 = 2;

/// Class of every guard (index = guard id) and a number for the function it belongs to. Computed in a child process into
/// shared memory: whatever is resident in this process is paid for at every fork.
pub fn classify() -> (&'static [u8], &'static [u32]) {
    unsafe {
        let n = super::NGUARDS + 1;
        let cls = super::sys::shared(n);
        let fid = super::sys::shared(4 * n) as *mut u32;
        let (cls, fid) = (std::slice::from_raw_parts_mut(cls, n), std::slice::from_raw_parts_mut(fid, n));
        let _ = super::sys::in_child(60, 200, &mut || classify_into(cls, fid));
        super::CLS = cls;
        (cls, fid)
    }
}
fn classify_into(cls: &mut [u8], fid: &mut [u32]) {
    let fns = functions();
    let ids: std::collections::HashMap<u64, u32> = fns.keys().enumerate().map(|(i, a)| (*a, i as u32)).collect();
    let me = super::__sanitizer_cov_trace_pc_guard as *const () as usize as u64;
    let base = fns.iter().find(|(_, v)| v.1 == "__sanitizer_cov_trace_pc_guard").map(|(a, _)| me.wrapping_sub(*a)).unwrap_or(0);
    unsafe {
        for i in 0..super::NPCS.min(cls.len() - 1) {
            let pc = (*super::PCS.add(2 * i) as u64).wrapping_sub(base);
            if let Some((a, (sz, nm))) = fns.range(..=pc).next_back() {
                if pc < a + sz.max(&1) {
                    cls[i + 1] = if nm.contains("4sync") || nm.contains("4cell") || nm.contains("6thread") || nm.contains("thread_local") {
                        ATOMIC
                    } else if nm.contains("6stroke") {
                        LIB
                    } else {
                        OTHER
                    };
                    fid[i + 1] = ids[a];
                }
            }
        }
    }
}
