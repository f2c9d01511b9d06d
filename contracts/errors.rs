// ------------------------------------------------------------ errors
/// stands for the text of an error
pub struct VxText {}
pub fn vx_format() -> VxText { VxText {} }
