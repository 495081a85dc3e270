import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=obs or [],hook_needed=None)))
def m(name,where): return dict(name=name,where=where)
def s(name,meaning,where): return dict(name=name,meaning=meaning,where=where)
SH='src/shard.rs'; LS='src/linked_slab.rs'; US='src/unsync.rs'; SY='src/sync.rs'; SP='src/sync_placeholder.rs'; OP='src/options.rs'
INV=[s('slab entries','resident pairs, loads in progress and ghosts, threaded on the hot, cold and ghost rings','src/shard.rs CacheShard.entries'),
     s('hash table','hash -> slab index of every entry','src/shard.rs CacheShard.map'),
     s('counters','weight_hot/weight_cold/num_hot/num_cold/num_non_resident','src/shard.rs CacheShard')]
p('C01','Lookups return the last value stored under the key, or nothing',
  'A lookup (get, peek, contains, the mutable and get-or-load variants) of a key yields a value exactly when the key is resident, and then it is the value most recently stored under an equal key and not since removed, replaced or evicted. Equality of keys decides, never the hash alone: keys with colliding hashes, ghosts of evicted keys and loads in progress never answer for another key, and a resident key is never hidden by them. At no time does one key have two entries.',
  ['inputs','histories'],'every history of operations, every hash function (including constant ones), every key and weight distribution',
  'the tests run a few fixed or random histories with one hash function; a stale hash-table entry or a ghost shadowing a resident needs a specific collision and eviction order',
  [SH,LS,US,SY],[m('search / search_resident filter by hash, then by key and entry kind',SH),m('map_insert / map_remove keep the table in step with the slab',SH),m('LinkedSlab free list reuses slots',LS)],INV,['get','peek','contains_key'])
p('C02','Reported length and weight are exact',
  'After every operation len() equals the number of resident pairs and weight() equals the sum of their current weights as the weighter reports them, the hot/cold split and the number of remembered evicted keys being exact too. Loads in progress and remembered evicted keys count for nothing. This holds whatever order of inserts, replacements, in-place mutations, removals, evictions, drains and abandoned loads led there.',
  ['inputs','histories'],'every history, every weighter including zero weights, every in-place mutation through a mutable reference',
  'counters are updated in a dozen places; a wrong update shows only after a particular transition (zero to non-zero weight, hot versus cold, ghost hit) and the tests compare counters in few states',
  [SH,US,SY],[m('every transition adjusts weight_*/num_* and list membership together',SH),m('RefMut drop / cold_change_weight re-weighs',SH)],INV,['len','weight','is_empty'])
p('C03','The total weight is brought back within the capacity',
  'When an insertion (insert, successful replace, or storing through a placeholder) returns, either the total weight is at most the weight capacity, or everything in excess is pinned: the unpinned pairs other than the one just inserted weigh nothing. Evictions never increase the total weight, a refused pair takes no room, and capacity() always reports the configured value.',
  ['inputs','histories','configurations'],'every history, capacity, hot/ghost allocation, weight distribution and pinning choice',
  'tests use a few capacities with mostly unit weights and no pinning; an eviction loop that stops early needs specific weights on specific lists',
  [SH],[m('eviction loops in insert / insert_existing / replace_placeholder run until within capacity or nothing is evictable',SH)],INV,['weight','capacity'])
p('C04','Pinned and zero-weight pairs are never evicted',
  'A pair for which the lifecycle reports that it is pinned, or whose weight is zero, is never removed to make room for another pair, however full the cache is. Such pairs leave only by explicit removal, replacement under the same key, retain, clear or drain. A cache full of pinned pairs still accepts insertions and terminates.',
  ['inputs','histories'],'every history and every assignment of pins and weights',
  'the tests pin a handful of keys; the clock hands skip pinned entries in code paths that depend on list order and reference counts',
  [SH],[m('advance_hot / advance_cold skip pinned entries; zero-weight entries are on no list',SH)],INV,['Lifecycle::is_pinned','Lifecycle::on_evict'])
p('C05','Every pair handed to the cache is accounted for exactly once',
  'Every pair given to the cache is at any time resident, or has been given back exactly once: to the caller as a return value or drained/retained-out pair, or to the lifecycle as evicted with its own key and final value. No resident pair disappears silently, none is reported evicted while it stays resident, and a pair refused at insertion or overwritten by a newer value is reported like any eviction.',
  ['inputs','histories'],'every history, including refusals, replacements, zero-weight transitions and loads that complete after the key was changed',
  'tests do not balance a ledger over histories; a lost or doubled hand-over needs a specific branch (ghost hit, overweight replacement of a resident, in-place growth)',
  [SH,US,SY],[m('every path that takes a Resident out of the slab returns it or calls on_evict',SH)],INV,['Lifecycle::on_evict','return values'])
p('C06','Admission: a pair within the limit is stored, a heavier one refused',
  'A pair is refused exactly when it is not pinned and, after the lifecycle was given the chance to shrink it, still weighs more than the share of the capacity reserved for hot pairs (at least 1 for a non-zero capacity, never more than the capacity); a refused insertion stores nothing and drops only the previous value of its own key. A pair that is within the limit is accepted, and a brand-new key that had no remembered history is present right after its insertion.',
  ['inputs','histories','configurations'],'every weight, pin, capacity, hot allocation and history',
  'limits are compared in several places with capacity-dependent arithmetic; tests sample few capacities and weights',
  [SH,OP],[m('insert and replace_placeholder compare against the admission limit before touching the structure',SH),m('limit computed in CacheShard::new',SH)],INV,['insert','replace','guard insert'])
p('C07','No panic, no unsafe misuse, no endless loop, structure stays intact',
  'No operation on a cache panics, overflows a counter, reads or writes an entry that is not there (including through the unchecked accesses), or loops forever, as long as user callbacks return and the total weight fits 64 bits. After every operation each entry is on exactly the list of its state, the lists are closed rings, and every free slot is reusable and never aliased with a live one.',
  ['inputs','histories'],'every history; every interleaving of list operations in any of the lists',
  'unchecked accesses and unwraps rely on an invariant over the whole structure; tests only fail when a wrong access happens to crash',
  [LS,SH],[m('LinkedSlab ring and free-list invariant',LS),m('unchecked get/unreachable in the clock hands justified by list membership',SH),m('clock hands advance a measure',SH)],INV,['panic','hang'])
p('C08','Replace only touches existing values; failure returns the pair',
  'replace stores the new value exactly when the key has a resident value and the pair is admitted; otherwise it returns the given pair as an error. When the key has no resident value a failed replace changes nothing at all: not the contents, not a load in progress, not the eviction order.',
  ['inputs','histories'],'every history, both soft and hard replacement, all weights',
  'tests check replace on one absent and one present key; ghosts, loads in progress and overweight replacements take separate branches',
  [SH,US,SY],[m('strategy checks in insert / insert_existing / handle_insert_overweight',SH)],INV,['replace'])
p('C09','Removal, retain, clear, drain and iteration are exact',
  'remove takes out exactly the pair of the given key and returns it, or nothing if the key has no value; retain keeps exactly the pairs for which the predicate is true; clear and drain leave the cache empty, drain yielding every resident pair exactly once. Iteration yields every resident pair exactly once, and nothing else.',
  ['inputs','histories'],'every history and every predicate, including while loads are in progress',
  'tests iterate over small freshly filled caches; slots freed and reused, ghosts and placeholders between residents are not sampled',
  [SH,US,SY,LS],[m('remove_internal',SH),m('retain / drain / iter walk the slab',SH),m('LinkedSlab iterators',LS)],INV,['remove','retain','clear','drain','iter'])
p('C10','One load per key; abandoned loads leave no trace',
  'While a key is being loaded no second loader for it is started, and storing through the placeholder puts exactly that value under that key. If the loader gives up (error, dropped guard, cancelled future) the key is absent as before, all memory and slots of the attempt are reusable, and the next request can load again. If the key was changed, removed or cleared meanwhile, the late value is not stored over it but handed back to the loader.',
  ['inputs','histories','schedules'],'every history in which loads overlap other operations on the same and other keys',
  'tests cover one waiter/loader pair at a time; stale placeholders colliding with reused slots need remove/insert/load sequences in between',
  [SH,SP,US,SY],[m('upsert_placeholder / replace_placeholder / remove_placeholder compare placeholder identity',SH),m('PlaceholderGuard drop',SP),m('unsync Guard drop',US)],INV,['get_value_or_guard','get_or_insert_with','Guard::insert'])
p('C11','Remembered evicted keys are bounded and invisible',
  'The cache remembers at most the configured number of evicted keys, whatever the history, and with a ghost allocation of zero it remembers none. Remembered keys hold no key or value, are never returned, iterated or counted, and memory use stays bounded under endless insertion of fresh keys.',
  ['inputs','histories','configurations'],'every history and every estimated item count and ghost allocation',
  'unbounded growth shows only after long histories with particular evictions; tests do not measure it',
  [SH],[m('advance_ghost when the ghost count exceeds the limit',SH),m('ghost limit computed in CacheShard::new',SH)],INV,['memory','len'])
p('C12','In-place mutation re-weighs the pair correctly',
  'When a value is changed through a mutable reference, the cache accounts for its new weight when the reference goes away: weight() is exact again, a pair that became weightless stops being an eviction candidate and one that gained weight becomes one, and the value read afterwards is the mutated one. Nothing else changes, whichever list the pair is on and however large the change.',
  ['inputs','histories'],'every pair of old and new weights (zero to non-zero, growth and shrinkage), every history',
  'tests mutate one value once; list membership after zero/non-zero transitions decides only later evictions',
  [SH,US],[m('RefMut drop calls cold_change_weight',SH)],INV,['get_mut','peek_mut','get_mut_or_guard'])
p('C13','Lifecycle hooks follow their protocol',
  'Before a non-pinned pair heavier than the admission limit is admitted or refused, before_evict is called on it exactly once and the weight is re-evaluated; it is likewise called exactly once, and only, on each pair about to be evicted for room, with the pair kept if that leaves it weightless. Every successful insertion or replacement makes one begin_request first and one end_request last, all its hooks receiving that same request state; a failed replacement drops the state instead, and the variants that return the state do not end the request.',
  ['inputs','histories'],'every history and every behaviour of the hooks that mutates values within their types',
  'tests use a default or counting lifecycle; a hook that changes weights exercises branches no test reaches',
  [SH,US,SY],[m('calls to before_evict/on_evict/is_pinned in advance_hot, advance_cold, insert, replace_placeholder',SH),m('begin_request/end_request wrappers',US)],INV,['Lifecycle'])
p('C14','Sharding is consistent and complete',
  'Every operation on a key of a concurrent cache acts on the one shard its hash selects, so a value stored by any operation is found by every other; whole-cache operations (len, weight, capacity, retain, clear, reserve, statistics) cover every shard exactly once. The shard count is a power of two, and the shards together have at least the requested weight capacity and less than one extra unit each (requests within a shard count of 2^64 excepted).',
  ['inputs','configurations','histories'],'every shard count, capacity, item estimate and hash function',
  'tests use the default shard count; a different bit selection in one operation shows only for keys whose hash differs in those bits',
  [SY],[m('shard_for / with_options / loops over shards',SY)],[],['sync::Cache'])
p('C15','Options are validated and take effect',
  'Building options fails exactly when the item estimate or the weight capacity is missing; allocations outside 0..=1 (or NaN) are rejected when set; every value set is the one the cache uses, defaults are as documented, and a capacity of zero or any other extreme value still yields a working cache.',
  ['inputs','configurations'],'all option values',
  'tests build a few option sets',
  [OP,SH,SY],[m('OptionsBuilder setters and build',OP),m('with_options',US)],[],['OptionsBuilder'])
p('C16','Waiters on a load always get an outcome; exactly one loads',
  'When several threads or tasks ask for the same missing key, exactly one is told to load and the others wait; when the load completes every waiter receives that value, and when it is abandoned exactly one waiter takes over loading. No wake-up is lost, no waiter waits for a load that nobody performs, and cancelling a waiting task never loses the turn it was given.',
  ['schedules','inputs'],'all interleavings of loaders, waiters, cancellations and other writers',
  'the existing tests sample a few interleavings',
  [SP,SY],[m('join / waiter queue / drop_uninserted_slow / insert_with_lifecycle',SP)],[s('waiter queue','waiters in arrival order','src/sync_placeholder.rs State')],['get_value_or_guard','get_value_or_guard_async'])
p('C17','Reading does not change the contents, peeking leaves no trace',
  'get, peek, contains_key, iteration, len, weight and failed lookups never change which pairs are resident, their values or the reported weight. peek, peek_mut without mutation, contains_key, iteration and lookups of absent keys also leave all later evictions exactly as they would have been without them.',
  ['inputs','histories'],'every history with read operations added at any points',
  'a read that disturbs the eviction order needs a differential comparison of two histories',
  [SH,US,SY],[m('only get/get_mut bump the reference counter, of the key found',SH)],INV,['get','peek','contains_key','iter'])
p('C18','Frequently used pairs outlive unused ones',
  'A pair evicted from the main (hot) section has the lowest use count (capped at 2) among the unpinned pairs there; uses are get, get_mut, get-or-load hits, inserting over a resident value and hard replacements, but not soft replacements or peeks. A brand-new pair starts unused (with one use if others were waiting for it while it was loaded), in the hot section while that still has room for it and otherwise in the cold one; a cold pair that was used is promoted when its turn comes, and as long as some cold pair was not used, making room takes it and leaves the hot pairs alone, so a scan over fresh keys does not displace the hot section. A key inserted while still remembered goes straight to the hot section, and no resident pair ever goes back from hot to cold.',
  ['inputs','histories'],'every history of uses and insertions',
  'tests only measure hit ratios or nothing about the policy',
  [SH],[m('advance_hot / advance_cold clock hands and reference counters',SH)],INV,['eviction order'])
p('C19','Hit and miss counts are exact',
  'With statistics enabled, every get, get_mut and get-or-load lookup adds exactly one hit if it finds the key and one miss if it does not, on the shard of the key, and nothing else (peeks, contains, insertions, removals, evictions, iteration) changes the counts. In the concurrent cache a get-or-load that misses looks again before it takes the load, and this second lookup counts too, as a hit if it finds the value or a load in progress to wait for. The totals reported are the sums over all shards, and a cloned cache starts with the counts of the original.',
  ['inputs','histories'],'every history',
  'tests do not compare the counters with a model',
  [SH,SY,US],[m('record_hit / record_miss',SH)],[],['hits','misses'])
p('C20','Waits with a timeout end at the timeout',
  'A lookup that may wait with a time limit returns within about that limit when the load does not finish, without disturbing the load or the other waiters, and never reports a timeout while it has been handed the value or the turn to load.',
  ['schedules','inputs'],'all schedules and time limits',
  'depends on real time and wake-up order',
  [SP],[m('join with timeout',SP)],[],['get_value_or_guard'])
p('C21','A cloned cache equals its original and is independent of it',
  'Cloning a (non-concurrent) cache yields one with the same resident pairs, sections, use counts, remembered keys, configuration, length, weight and statistics, which from then on answers and evicts exactly as the original would under the same operations. Operations on either never affect the other, and the original is unchanged by the cloning.',
  ['inputs','histories'],'every history before and after the cloning',
  'the tests never clone a cache; a field cloned wrongly shows only in later evictions or panics',
  [SH,US,LS],[m('Clone for CacheShard and Resident',SH),m('derived Clone of LinkedSlab',LS)],INV,['clone'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80, x['title']
