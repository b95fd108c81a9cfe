//! Overrides libc's `getrandom` so that uuids, `RandomState` and `thread_rng` are functions of the
//! case being run. A thread that never called `seed` gets a fixed stream.
use std::cell::Cell;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0x1234_5678_9abc_def0) };
}

pub fn seed(s: u64) {
    STATE.with(|x| x.set(s));
}

fn fill(buf: *mut u8, len: usize) {
    let _ = STATE.try_with(|st| {
        let mut s = st.get();
        let mut i = 0;
        while i < len {
            s = s.wrapping_add(0x9e3779b97f4a7c15);
            for b in crate::mix(s).to_le_bytes() {
                if i < len {
                    unsafe { *buf.add(i) = b };
                    i += 1;
                }
            }
        }
        st.set(s);
    });
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len);
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    fill(buf, len);
    0
}
