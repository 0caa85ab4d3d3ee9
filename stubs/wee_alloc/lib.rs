#![no_std]
use core::alloc::{GlobalAlloc, Layout};
pub struct WeeAlloc(());
impl WeeAlloc { pub const INIT: WeeAlloc = WeeAlloc(()); }
unsafe impl GlobalAlloc for WeeAlloc {
    unsafe fn alloc(&self, _layout: Layout) -> *mut u8 { loop {} }
    unsafe fn dealloc(&self, _ptr: *mut u8, _layout: Layout) { loop {} }
}
