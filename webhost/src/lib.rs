//! The exported functions of the browser crate, over pointers.
use wasmhost_guest as web;

#[no_mangle]
pub extern "C" fn take(n: usize) -> *mut u8 {
    let v = vec![0u64; n / 8 + 1].into_boxed_slice();
    Box::leak(v).as_mut_ptr() as *mut u8
}

static mut OUT: Vec<u8> = Vec::new();
#[allow(static_mut_refs)]
fn give(v: Vec<u8>) -> *const u8 {
    unsafe {
        OUT = v;
        OUT.as_ptr()
    }
}

fn bytes(p: *const u8, n: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(p, n) }
}

fn text(p: *const u8, n: usize) -> String {
    String::from_utf8(bytes(p, n).to_vec()).unwrap()
}

/// The answer of an update: always 256 bytes.
#[no_mangle]
pub extern "C" fn update(p: *const u8, n: usize) -> *const u8 {
    give(unsafe { web::update(bytes(p, n)) })
}

/// `size` samples of four bytes.
#[no_mangle]
pub extern "C" fn process(size: usize) -> *const u8 {
    give(web::process(size).iter().flat_map(|x| x.to_le_bytes()).collect())
}

#[no_mangle]
pub extern "C" fn add_sample(p: *const u8, n: usize, sp: *const f32, sn: usize, channels: usize, sr: usize) {
    let s: Box<[f32]> = unsafe { std::slice::from_raw_parts(sp, sn) }.into();
    web::add_sample(text(p, n), s, channels, sr)
}

#[no_mangle]
pub extern "C" fn send_msg(p: *const u8, n: usize) {
    web::send_msg(text(p, n))
}

#[no_mangle]
pub extern "C" fn set_bpm(x: f32) {
    web::set_bpm(x)
}

#[no_mangle]
pub extern "C" fn set_track_amp(x: f32) {
    web::set_track_amp(x)
}

#[no_mangle]
pub extern "C" fn set_sr(x: f32) {
    web::set_sr(x)
}

#[no_mangle]
pub extern "C" fn set_seed(x: f32) {
    web::set_seed(x)
}

#[no_mangle]
pub extern "C" fn live_coding_mode(x: bool) {
    web::live_coding_mode(x)
}

#[no_mangle]
pub extern "C" fn reset() {
    web::reset()
}
