//! Entry points whose LLVM code is read and executed symbolically (see ../symx/src/llvm.rs).

#[no_mangle]
#[inline(never)]
pub fn ir_ackley(x: f32, y: f32) -> f32 {
    magnesia::optimize::test_functions::ackley(x, y)
}
