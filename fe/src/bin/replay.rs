// replaced by lib/drv.py (fe_build)
fn main() {}
