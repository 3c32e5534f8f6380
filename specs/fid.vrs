//@item src/core/types.rs::FidOnDisk
