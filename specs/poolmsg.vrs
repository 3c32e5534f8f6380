//@item src/storage/store/mempool_poller.rs::MempoolMessage noclone
