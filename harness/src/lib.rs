//! Shared machinery of the runtime monitors for image-rs/image.
pub mod alloc;
pub mod conv;
pub mod ctx;
pub mod gen;
#[cfg(feature = "codecs")]
pub mod dec;
#[cfg(feature = "codecs")]
pub mod enc;
#[cfg(feature = "codecs")]
pub mod files;
pub mod io;
pub mod lossy;
pub mod model;
#[cfg(feature = "codecs")]
pub mod mutate;
#[cfg(feature = "codecs")]
pub mod readers;
pub mod rng;

pub use ctx::{catch, main, Case, Ctx, PanicInfo, Tier};
pub use rng::{hash_bytes, hash_str, mix, Rng};

#[global_allocator]
static GLOBAL: alloc::Tracking = alloc::Tracking;

/// Generate `fn main` for a property binary whose `run` is in the same file.
#[macro_export]
macro_rules! property_main {
    ($id:literal) => {
        #[allow(dead_code)]
        fn main() {
            vh::main($id, run)
        }
    };
}
