pub mod adapter;
pub mod counting;

#[global_allocator]
static ALLOC: counting::Counting = counting::Counting;
pub mod peers;
