//! The pool of unspent outputs against a plain list: blocks, snapshots, persistence and restarts.
use crate::util::*;
use std::sync::Arc;
use witnet_data_structures::chain::*;
use witnet_data_structures::utxo_pool::utxo_db::UtxoStorageIterator;
use witnet_data_structures::utxo_pool::*;
use witnet_storage::backends::hashmap::Backend;

#[derive(Clone, Copy, PartialEq)]
struct Coin {
    id: u8,
    owner: usize,
    value: u64,
    lock: u64,
    block: u32,
}
fn at(id: u8) -> OutputPointer {
    OutputPointer { transaction_id: Hash::SHA256([id / 2 + 1; 32]), output_index: (id % 2) as u32 }
}
fn out(c: &Coin) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(c.owner), value: c.value, time_lock: c.lock }
}
type List = Vec<Coin>;

fn same(got: Vec<(OutputPointer, (ValueTransferOutput, u32))>, l: &[Coin], label: &'static str) {
    let ok = got.len() == l.len() && l.iter().all(|c| got.iter().any(|(p, (o, b))| *p == at(c.id) && *o == out(c) && *b == c.block));
    nd::check(ok, label);
}

/// The pool, seen through every one of its queries, is the list.
fn agree(p: &UnspentOutputsPool, l: &List, confirmed: &List, ids: u8) {
    for id in 0..=ids {
        let c = l.iter().find(|c| c.id == id);
        nd::check(p.get(&at(id)) == c.map(out), "an output can be found exactly while it is unspent");
        nd::check(p.contains_key(&at(id)) == c.is_some(), "an output is in the pool exactly while it is unspent");
        nd::check(p.included_in_block_number(&at(id)) == c.map(|c| c.block), "an unspent output knows the block it was created in");
    }
    same(p.iter().collect(), l, "all unspent outputs are listed once");
    let (mut old, mut all) = (vec![], vec![]);
    p.visit(|x| old.push(x.clone()), |x| all.push(x.clone()));
    same(old, confirmed, "a visit shows the confirmed outputs");
    same(all, l, "a visit shows all outputs");
    for owner in 0..2 {
        let (mut old, mut all) = (vec![], vec![]);
        p.visit_with_pkh(pkh(owner), |x| old.push(x.clone()), |x| all.push(x.clone()));
        let of = |l: &List| l.iter().filter(|c| c.owner == owner).copied().collect::<List>();
        same(old, &of(confirmed), "a visit of an address shows its confirmed outputs");
        same(all, &of(l), "a visit of an address shows all of its outputs");
    }
}

fn pool(cached: bool, db: &Arc<UtxoDbWrapStorage<Backend>>) -> UnspentOutputsPool {
    let db: Arc<dyn UtxoDb + Send + Sync> = if cached { Arc::new(CacheUtxosByPkh::new(Shared(db.clone())).unwrap()) } else { db.clone() };
    UnspentOutputsPool { db: Some(db), ..Default::default() }
}
/// The database of a node outlives its pool.
struct Shared(Arc<UtxoDbWrapStorage<Backend>>);
impl UtxoDb for Shared {
    fn get_utxo(&self, p: &OutputPointer) -> Result<Option<(ValueTransferOutput, u32)>, anyhow::Error> {
        self.0.get_utxo(p)
    }
    fn utxo_iterator(&self) -> Result<UtxoStorageIterator<'_>, anyhow::Error> {
        self.0.utxo_iterator()
    }
    fn utxo_iterator_by_pkh(&self, pkh: PublicKeyHash) -> Result<UtxoStorageIterator<'_>, anyhow::Error> {
        self.0.utxo_iterator_by_pkh(pkh)
    }
    fn write(&self, batch: UtxoWriteBatch) -> Result<(), anyhow::Error> {
        UtxoDb::write(&*self.0, batch)
    }
}

fn history(steps: usize, cached: bool) {
    let db = Arc::new(UtxoDbWrapStorage(Backend::default()));
    let mut p = pool(cached, &db);
    // the outputs as of now, as of the snapshot that is not persisted yet, and as of the last persisted one
    let (mut l, mut confirmed): (List, List) = (vec![], vec![]);
    let mut snapshot: Option<(UnspentOutputsPool, List)> = None;
    let mut ids = 0;
    for s in 0..steps {
        let op = nd::pick("operation", 0, 5);
        match op {
            // blocks: that create, spend, spend what they create
            0..=2 => {
                let mut d = UtxoDiff::new(&p, s as u32);
                if op != 1 {
                    for owner in 0..2 {
                        let c = Coin { id: ids, owner, value: nd::u64("value"), lock: nd::u64("lock"), block: s as u32 };
                        ids += 1;
                        d.insert_utxo(at(c.id), out(&c), None);
                        l.push(c);
                    }
                }
                if op != 0 {
                    nd::assume(!l.is_empty());
                    let i = nd::pick("spent", 0, l.len() - 1);
                    let c = l.remove(i);
                    d.remove_utxo(at(c.id));
                    nd::cover("spent");
                }
                for id in 0..=ids {
                    nd::check(d.get(&at(id)) == l.iter().find(|c| c.id == id).map(out), "a block in progress sees its own changes");
                }
                d.take_diff().apply(&mut p);
            }
            3 => {
                nd::assume(snapshot.is_none());
                snapshot = Some((p.clone(), l.clone()));
            }
            4 => {
                nd::assume(snapshot.is_some());
                let (mut old, then) = snapshot.take().unwrap();
                agree(&old, &then, &confirmed, ids);
                p.remove_persisted_from_memory(&old.diff);
                old.persist();
                nd::check(old.diff == Diff::default(), "after persisting, nothing is left to persist");
                if then != l {
                    nd::cover("persisted while ahead");
                }
                confirmed = then;
                agree(&old, &confirmed, &confirmed, ids);
            }
            _ => {
                // a restart loses what was not persisted
                p = pool(cached, &db);
                l = confirmed.clone();
                snapshot = None;
                nd::cover("restart");
            }
        }
        agree(&p, &l, &confirmed, ids);
    }
}

//@ prop D05
//@ cover spent, persisted while ahead, restart
//@ bounds histories of 4 (quick) or 5 (thorough) blocks, snapshots, persisted snapshots or restarts; outputs of two addresses, any values and time locks
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_utxo_history() {
    history(if cfg!(feature = "thorough") { 5 } else { 4 }, false);
}

//@ prop D05
//@ cover spent, persisted while ahead, restart
//@ bounds histories of 4 (quick) or 5 (thorough) blocks, snapshots, persisted snapshots or restarts, over a database that caches the outputs of addresses; outputs of two addresses, any values and time locks
//@ shards 8
#[unsafe(no_mangle)]
pub fn h_utxo_history_cached() {
    history(if cfg!(feature = "thorough") { 5 } else { 4 }, true);
}
