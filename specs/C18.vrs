//@include prelude.vrs
global size_of usize == 8;
//@proto DbTrieNode
//@include batch.vrs
//@include iters.vrs
//@include blake.vrs
//@include trie.vrs
pub assume_specification<T> [std::option::Option::<T>::replace] (o: &mut Option<T>, x: T) -> (r: Option<T>) ensures *final(o) == Some(x), r == *old(o);
//@item src/storage/trie/merkle_trie.rs::MerkleTrie noclone
impl MerkleTrie {
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::new -> r
    ensures r is Ok && r->Ok_0.root is None,
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::create_empty_root
    ensures final(self).root is Some && hash_of(val(final(self).root->Some_0)) == Seq::<u8>::empty() && final(self).root->Some_0.items == 0,
        exists|b: Vec<u8>| #[trigger] wire(b@) is Some && same(val(final(self).root->Some_0), wire(b@)->Some_0) && final(txn_batch).batch@ == old(txn_batch).batch@.insert(seq![RootPrefix::MerkleTrieNode as u8], Some(b)),
//@start
    assert(seq![RootPrefix::MerkleTrieNode as u8] + Seq::<u8>::empty() + Seq::<u8>::empty() =~= seq![RootPrefix::MerkleTrieNode as u8]);
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::items -> r
    ensures r is Ok <==> self.root is Some, r is Ok ==> r->Ok_0 == self.root->Some_0.items,
//@endfn
//@fn src/storage/trie/merkle_trie.rs::MerkleTrie::root_hash -> r
    requires self.root is Some ==> proper(val(self.root->Some_0)),
    ensures r is Ok <==> self.root is Some, r is Ok ==> r->Ok_0@ =~= hash_of(val(self.root->Some_0)),
//@endfn
}
} // verus!
fn main() {}
