//! Concrete, non-generic entry points into the library under test, so that its
//! generic code is instantiated (and instrumented) in this crate.

pub use eth_trie_utils::*;

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie, Node, PartialTrie, StandardTrie},
    trie_ops::ValOrHash,
    trie_subsets::{create_trie_subset, create_trie_subsets},
};
use ethereum_types::H256;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Format {
    Json,
    Cbor,
    Bincode,
}

pub trait Sut: PartialTrie + Send + Sync + 'static {
    const NAME: &'static str;
    fn s_new(n: Node<Self>) -> Self;
    fn s_insert(&mut self, k: Nibbles, v: ValOrHash);
    fn s_extend(&mut self, nodes: Vec<(Nibbles, ValOrHash)>);
    fn s_extend_dyn(&mut self, nodes: &mut dyn Iterator<Item = (Nibbles, ValOrHash)>);
    fn s_from_iter(nodes: Vec<(Nibbles, ValOrHash)>) -> Self;
    fn s_get(&self, k: Nibbles) -> Option<&[u8]>;
    fn s_delete(&mut self, k: Nibbles) -> Option<Vec<u8>>;
    fn s_hash(&self) -> H256;
    fn s_items(&self) -> Box<dyn Iterator<Item = (Nibbles, ValOrHash)> + '_>;
    fn s_keys(&self) -> Box<dyn Iterator<Item = Nibbles> + '_>;
    fn s_values(&self) -> Box<dyn Iterator<Item = ValOrHash> + '_>;
    fn s_eq(&self, other: &Self) -> bool;
    fn s_subset(&self, keys: Vec<Nibbles>) -> Result<Self, String>;
    fn s_subsets(&self, keys: Vec<Vec<Nibbles>>) -> Result<Vec<Self>, String>;
    fn s_ser(&self, f: Format) -> Result<Vec<u8>, String>;
    fn s_de(b: &[u8], f: Format) -> Result<Self, String>;
    #[cfg(feature = "debug_tools")]
    fn s_stats(&self, name: Option<String>) -> debug_tools::stats::TrieStats;
    #[cfg(feature = "debug_tools")]
    fn s_query(&self, q: debug_tools::query::DebugQuery) -> debug_tools::query::DebugQueryOutput;
}

pub fn ser<T: serde::Serialize>(v: &T, f: Format) -> Result<Vec<u8>, String> {
    match f {
        Format::Json => serde_json::to_vec(v).map_err(|e| e.to_string()),
        Format::Cbor => {
            let mut out = vec![];
            ciborium::into_writer(v, &mut out).map_err(|e| e.to_string())?;
            Ok(out)
        }
        Format::Bincode => bincode::serialize(v).map_err(|e| e.to_string()),
    }
}

pub fn de<T: serde::de::DeserializeOwned>(b: &[u8], f: Format) -> Result<T, String> {
    match f {
        Format::Json => {
            // Nested nodes of deep tries go over the default recursion limit of the
            // format, which is not what is being checked.
            let mut d = serde_json::Deserializer::from_slice(b);
            d.disable_recursion_limit();
            T::deserialize(&mut d).map_err(|e| e.to_string())
        }
        Format::Cbor => {
            ciborium::de::from_reader_with_recursion_limit(b, 4096).map_err(|e| e.to_string())
        }
        Format::Bincode => bincode::deserialize(b).map_err(|e| e.to_string()),
    }
}

macro_rules! impl_sut {
    ($t:ty, $name:literal) => {
        impl Sut for $t {
            const NAME: &'static str = $name;
            fn s_new(n: Node<Self>) -> Self {
                <$t as PartialTrie>::new(n)
            }
            fn s_insert(&mut self, k: Nibbles, v: ValOrHash) {
                self.insert(k, v)
            }
            fn s_extend(&mut self, nodes: Vec<(Nibbles, ValOrHash)>) {
                self.extend(nodes)
            }
            fn s_extend_dyn(&mut self, nodes: &mut dyn Iterator<Item = (Nibbles, ValOrHash)>) {
                self.extend(nodes)
            }
            fn s_from_iter(nodes: Vec<(Nibbles, ValOrHash)>) -> Self {
                nodes.into_iter().collect()
            }
            fn s_get(&self, k: Nibbles) -> Option<&[u8]> {
                self.get(k)
            }
            fn s_delete(&mut self, k: Nibbles) -> Option<Vec<u8>> {
                self.delete(k)
            }
            fn s_hash(&self) -> H256 {
                self.hash()
            }
            fn s_items(&self) -> Box<dyn Iterator<Item = (Nibbles, ValOrHash)> + '_> {
                Box::new(self.items())
            }
            fn s_keys(&self) -> Box<dyn Iterator<Item = Nibbles> + '_> {
                Box::new(self.keys())
            }
            fn s_values(&self) -> Box<dyn Iterator<Item = ValOrHash> + '_> {
                Box::new(self.values())
            }
            fn s_eq(&self, other: &Self) -> bool {
                self == other
            }
            fn s_subset(&self, keys: Vec<Nibbles>) -> Result<Self, String> {
                create_trie_subset(self, keys).map_err(|e| e.to_string())
            }
            fn s_subsets(&self, keys: Vec<Vec<Nibbles>>) -> Result<Vec<Self>, String> {
                create_trie_subsets(self, keys).map_err(|e| e.to_string())
            }
            fn s_ser(&self, f: Format) -> Result<Vec<u8>, String> {
                ser(self, f)
            }
            fn s_de(b: &[u8], f: Format) -> Result<Self, String> {
                de(b, f)
            }
            #[cfg(feature = "debug_tools")]
            fn s_stats(&self, name: Option<String>) -> debug_tools::stats::TrieStats {
                match name {
                    None => debug_tools::stats::get_trie_stats(self),
                    Some(n) => debug_tools::stats::get_trie_stats_with_name(self, n),
                }
            }
            #[cfg(feature = "debug_tools")]
            fn s_query(
                &self,
                q: debug_tools::query::DebugQuery,
            ) -> debug_tools::query::DebugQueryOutput {
                debug_tools::query::get_path_from_query(self, q)
            }
        }
    };
}

impl_sut!(StandardTrie, "standard");
impl_sut!(HashedPartialTrie, "hashed");

#[cfg(feature = "debug_tools")]
pub fn diff(a: &HashedPartialTrie, b: &HashedPartialTrie) -> debug_tools::diff::TrieDiff {
    debug_tools::diff::create_diff_between_tries(a, b)
}
