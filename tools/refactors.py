#!/usr/bin/env python3
"""behaviour-preserving edits of /repo; the proof (and, with --full, the checks) must not report a violation on any of them

usage: refactors.py [--list] [NAME...]      prints per edit: failed obligations (an alarm), undecided, functions out of reach
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('RF_BASE', '/repo')
S, LS, U, Y, O, P = 'src/shard.rs', 'src/linked_slab.rs', 'src/unsync.rs', 'src/sync.rs', 'src/options.rs', 'src/sync_placeholder.rs'
R = {
 'link_helper': [(LS, "let entry = &mut self.entries[(idx.get() - 1) as usize];\n        debug_assert!(entry.item.is_some());\n        debug_assert_eq!(entry.next, idx);", "let entry = self.entry_mut(idx);\n        debug_assert!(entry.item.is_some());\n        debug_assert_eq!(entry.next, idx);"),
   (LS, "    /// Links an entry before", "    #[inline]\n    fn entry_mut(&mut self, idx: Token) -> &mut Entry<T> {\n        &mut self.entries[(idx.get() - 1) as usize]\n    }\n\n    /// Links an entry before")],
 'index_helper': [(LS, "        let idx = (token.get() - 1) as usize;", "        let idx = Self::slot(token);"), (LS, "    /// Inserts a new entry in the list.", "    fn slot(token: Token) -> usize {\n        (token.get() - 1) as usize\n    }\n\n    /// Inserts a new entry in the list."),
   (LS, "let before_head = &mut self.entries[(before_head_idx.get() - 1) as usize];", "let before_head = &mut self.entries[Self::slot(before_head_idx)];")],
 'get_match': [(LS, """        if let Some(entry) = self.entries.get((index.get() - 1) as usize) {
            if let Some(v) = &entry.item {
                return Some((v, entry.next));
            }
        }
        None""", """        let entry = self.entries.get((index.get() - 1) as usize)?;
        let v = entry.item.as_ref()?;
        Some((v, entry.next))""")],
 'get_mut_match': [(LS, """        if let Some(entry) = self.entries.get_mut((index.get() - 1) as usize) {
            if let Some(v) = &mut entry.item {
                return Some((v, entry.next));
            }
        }
        None""", """        match self.entries.get_mut((index.get() - 1) as usize) {
            Some(Entry { item: Some(v), next, .. }) => Some((v, *next)),
            _ => None,
        }""")],
 'slab_insert_swap': [(LS, """        if idx < self.entries.len() {
            let entry = &mut self.entries[idx];
            self.next_free = entry.next;
            (entry.prev, entry.next) = (token, token);
            debug_assert!(entry.item.is_none());
            entry.item = Some(item);
        } else {
            debug_assert_eq!(idx, self.entries.len());
            self.next_free = Token::new(token.get().wrapping_add(1)).expect("Capacity overflow");
            self.entries.push(Entry {
                next: token,
                prev: token,
                item: Some(item),
            });
        }""", """        if idx >= self.entries.len() {
            debug_assert_eq!(idx, self.entries.len());
            let following = token.get().wrapping_add(1);
            self.next_free = Token::new(following).expect("Capacity overflow");
            self.entries.push(Entry {
                item: Some(item),
                prev: token,
                next: token,
            });
        } else {
            let entry = &mut self.entries[idx];
            debug_assert!(entry.item.is_none());
            self.next_free = entry.next;
            entry.item = Some(item);
            entry.prev = token;
            entry.next = token;
        }""")],
 'unlink_reorder': [(LS, """            (entry.prev, entry.next) = (idx, idx);
            let next = &mut self.entries[(next_idx.get() - 1) as usize];
            debug_assert!(next.item.is_some());
            debug_assert_eq!(next.prev, idx);
            next.prev = prev_idx;
            let prev = &mut self.entries[(prev_idx.get() - 1) as usize];
            debug_assert!(prev.item.is_some());
            debug_assert_eq!(prev.next, idx);
            prev.next = next_idx;
            Some(next_idx)""", """            entry.prev = idx;
            entry.next = idx;
            let prev = &mut self.entries[(prev_idx.get() - 1) as usize];
            debug_assert!(prev.item.is_some());
            debug_assert_eq!(prev.next, idx);
            prev.next = next_idx;
            let next = &mut self.entries[(next_idx.get() - 1) as usize];
            debug_assert!(next.item.is_some());
            debug_assert_eq!(next.prev, idx);
            next.prev = prev_idx;
            Some(next_idx)""")],
 'unlink_early': [(LS, """        if next_idx == idx {
            debug_assert_eq!(prev_idx, idx);
            // single item list, nothing to do
            None
        } else {
            (entry.prev, entry.next) = (idx, idx);""", """        if next_idx == idx {
            debug_assert_eq!(prev_idx, idx);
            return None;
        }
        {
            (entry.prev, entry.next) = (idx, idx);""")],
 'slab_remove_unwrap': [(LS, """        let old_item = entry.item.take()?;
        entry.next = self.next_free;
        self.next_free = idx;
        Some((old_item, next))""", """        let Some(old_item) = entry.item.take() else {
            return None;
        };
        entry.next = std::mem::replace(&mut self.next_free, idx);
        Some((old_item, next))""")],
 'link_match': [(LS, "let (prev, next) = if let Some(target_head) = target_head {", "let (prev, next) = match target_head { None => (idx, idx), Some(target_head) => {"),
   (LS, """        } else {
            (idx, idx)
        };

        let entry""", """        }};

        let entry""")],
 'slab_iter_filter_map': [(LS, "self.entries.iter().flat_map(|i| i.item.as_ref())", "self.entries.iter().filter_map(|e| e.item.as_ref())")],
 'search_resident_loop': [(S, """        let mut resident = MaybeUninit::uninit();
        self.map
            .find(hash, |&idx| {
                let (entry, _) = self.entries.get(idx).unwrap();
                match entry {
                    Entry::Resident(r) if k.equivalent(&r.key) => {
                        resident.write(r);
                        true
                    }
                    _ => false,
                }
            })
            .map(|idx| {
                // Safety: we found a successful entry in `get` above,
                // thus resident is initialized.
                (*idx, unsafe { resident.assume_init() })
            })""", """        for &idx in self.map.iter_hash(hash) {
            let (entry, _) = self.entries.get(idx).unwrap();
            if let Entry::Resident(r) = entry {
                if k.equivalent(&r.key) {
                    return Some((idx, r));
                }
            }
        }
        None"""), (S, "    mem::{self, MaybeUninit},", "    mem,")],
 'search_resident_opt': [(S, """        let mut resident = MaybeUninit::uninit();
        self.map
            .find(hash, |&idx| {
                let (entry, _) = self.entries.get(idx).unwrap();
                match entry {
                    Entry::Resident(r) if k.equivalent(&r.key) => {
                        resident.write(r);
                        true
                    }
                    _ => false,
                }
            })
            .map(|idx| {
                // Safety: we found a successful entry in `get` above,
                // thus resident is initialized.
                (*idx, unsafe { resident.assume_init() })
            })""", """        let idx = *self.map.find(hash, |&idx| {
            let (entry, _) = self.entries.get(idx).unwrap();
            matches!(entry, Entry::Resident(r) if k.equivalent(&r.key))
        })?;
        match self.entries.get(idx) {
            Some((Entry::Resident(r), _)) => Some((idx, r)),
            _ => None,
        }"""), (S, "    mem::{self, MaybeUninit},", "    mem,")],
 'contains_via_search': [(S, """        self.map
            .find(hash, |&idx| {
                let (entry, _) = self.entries.get(idx).unwrap();
                matches!(entry, Entry::Resident(r) if key.equivalent(&r.key))
            })
            .is_some()""", "        self.search_resident(hash, key).is_some()")],
 'search_ifs': [(S, """            match entry {
                Entry::Resident(Resident { key, .. })
                | Entry::Placeholder(Placeholder { key, .. })
                    if k.equivalent(key) =>
                {
                    return Some(idx);
                }
                Entry::Ghost(non_resident_hash) if *non_resident_hash == hash => {
                    hash_match = Some(idx);
                }
                _ => (),
            }""", """            match entry {
                Entry::Resident(Resident { key, .. })
                | Entry::Placeholder(Placeholder { key, .. }) => {
                    if k.equivalent(key) {
                        return Some(idx);
                    }
                }
                Entry::Ghost(ghost_hash) => {
                    if *ghost_hash == hash {
                        hash_match = Some(idx);
                    }
                }
            }""")],
 'get_let_else': [(S, """        if let Some((_, resident)) = self.search_resident(hash, key) {
            let referenced = resident.referenced.load(atomic::Ordering::Relaxed);
            // Attempt to avoid contention on hot items, which may have their counters maxed out
            if referenced < MAX_F {
                // While extremely unlikely, this increment can theoretically overflow.
                // Even if that happens there's no impact correctness wise.
                resident.referenced.fetch_add(1, atomic::Ordering::Relaxed);
            }
            record_hit!(self);
            Some(&resident.value)
        } else {
            record_miss!(self);
            None
        }""", """        let Some((_, resident)) = self.search_resident(hash, key) else {
            record_miss!(self);
            return None;
        };
        record_hit!(self);
        if resident.referenced.load(atomic::Ordering::Relaxed) < MAX_F {
            resident.referenced.fetch_add(1, atomic::Ordering::Relaxed);
        }
        Some(&resident.value)""")],
 'remove_internal_helper': [(S, """        if *list_head == Some(idx) {
            *list_head = next;
        }
        result
    }""", """        Self::fix_head(list_head, idx, next);
        result
    }

    #[inline]
    fn fix_head(head: &mut Option<Token>, removed: Token, next: Option<Token>) {
        if *head == Some(removed) {
            *head = next;
        }
    }""")],
 'remove_internal_match': [(S, """                if r.state == ResidentState::Hot {
                    self.num_hot -= 1;
                    self.weight_hot -= weight;
                    &mut self.hot_head
                } else {
                    debug_assert!(r.state == ResidentState::Cold);
                    self.num_cold -= 1;
                    self.weight_cold -= weight;
                    &mut self.cold_head
                }""", """                match r.state {
                    ResidentState::Hot => {
                        self.weight_hot -= weight;
                        self.num_hot -= 1;
                        &mut self.hot_head
                    }
                    ResidentState::Cold => {
                        self.weight_cold -= weight;
                        self.num_cold -= 1;
                        &mut self.cold_head
                    }
                }""")],
 'retain_for': [(S, """        let retained_tokens = self
            .map
            .iter()
            .filter_map(|&idx| match self.entries.get(idx) {
                Some((entry, _idx)) => match entry {
                    Entry::Resident(r) => {
                        if !f(&r.key, &r.value) {
                            let hash = self.hash(&r.key);
                            Some((idx, hash))
                        } else {
                            None
                        }
                    }
                    Entry::Placeholder(_) | Entry::Ghost(_) => None,
                },
                None => None,
            })
            .collect::<Vec<_>>();
        for (idx, hash) in retained_tokens {
            self.remove_internal(hash, idx);
        }""", """        let mut rejected = Vec::new();
        for &idx in self.map.iter() {
            if let Some((Entry::Resident(r), _)) = self.entries.get(idx) {
                if !f(&r.key, &r.value) {
                    rejected.push((idx, self.hash(&r.key)));
                }
            }
        }
        for (idx, hash) in rejected {
            self.remove_internal(hash, idx);
        }""")],
 'evict_helper': [(S, """        while self.weight_hot + self.weight_cold > self.weight_capacity && self.advance_cold(lcs) {}
        Ok(())
    }

    #[inline]
    fn map_insert""", """        self.evict_to_capacity(lcs);
        Ok(())
    }

    #[inline]
    fn evict_to_capacity(&mut self, lcs: &mut L::RequestState) {
        while self.weight_hot + self.weight_cold > self.weight_capacity && self.advance_cold(lcs) {}
    }

    #[inline]
    fn map_insert""")],
 'evict_loop': [(S, """        while self.weight_hot + self.weight_cold > self.weight_capacity && self.advance_cold(lcs) {}
        Ok(())""", """        loop {
            if self.weight_hot + self.weight_cold <= self.weight_capacity {
                break;
            }
            if !self.advance_cold(lcs) {
                break;
            }
        }
        Ok(())""")],
 'insert_evict_weightfn': [(S, """        while self.weight_hot + self.weight_cold + weight > self.weight_capacity
            && self.advance_cold(lcs)
        {}""", """        while self.weight() + weight > self.weight_capacity && self.advance_cold(lcs) {}""")],
 'insert_admit_helper': [(S, """        let mut weight = self.weighter.weight(&key, &value);
        // don't admit if it won't fit within the budget
        if weight > self.weight_target_hot && !self.lifecycle.is_pinned(&key, &value) {
            self.lifecycle.before_evict(lcs, &key, &mut value);
            weight = self.weighter.weight(&key, &value);
            if weight > self.weight_target_hot {
                return self.handle_insert_overweight(lcs, hash, key, value, strategy);
            }
        }
""", """        let mut weight = self.weighter.weight(&key, &value);
        // don't admit if it won't fit within the budget
        if self.is_overweight(&key, &value, weight) {
            self.lifecycle.before_evict(lcs, &key, &mut value);
            weight = self.weighter.weight(&key, &value);
            if weight > self.weight_target_hot {
                return self.handle_insert_overweight(lcs, hash, key, value, strategy);
            }
        }
"""), (S, "    #[cold]\n    fn handle_insert_overweight(", "    fn is_overweight(&self, key: &Key, value: &Val, weight: u64) -> bool {\n        weight > self.weight_target_hot && !self.lifecycle.is_pinned(key, value)\n    }\n\n    #[cold]\n    fn handle_insert_overweight(")],
 'insert_match_search': [(S, """        if let Some(idx) = self.search(hash, &key) {
            return self.insert_existing(lcs, idx, key, value, weight, strategy);
        } else if matches!(strategy, InsertStrategy::Replace { .. }) {
            return Err((key, value));
        }
""", """        match (self.search(hash, &key), &strategy) {
            (Some(idx), _) => {
                return self.insert_existing(lcs, idx, key, value, weight, strategy)
            }
            (None, InsertStrategy::Replace { .. }) => return Err((key, value)),
            (None, InsertStrategy::Insert) => {}
        }
""")],
 'insert_tail': [(S, """        let (state, list_head) = if enter_hot {
            self.num_hot += 1;
            self.weight_hot += weight;
            (ResidentState::Hot, &mut self.hot_head)
        } else {
            self.num_cold += 1;
            self.weight_cold += weight;
            (ResidentState::Cold, &mut self.cold_head)
        };
        let idx = self.entries.insert(Entry::Resident(Resident {
            key,
            value,
            state,
            referenced: Default::default(),
        }));
        if weight != 0 {
            *list_head = Some(self.entries.link(idx, *list_head));
        }
        self.map_insert(hash, idx);
        Ok(())""", """        let state = if enter_hot {
            ResidentState::Hot
        } else {
            ResidentState::Cold
        };
        let idx = self.entries.insert(Entry::Resident(Resident {
            key,
            value,
            state,
            referenced: Default::default(),
        }));
        if enter_hot {
            self.num_hot += 1;
            self.weight_hot += weight;
            if weight != 0 {
                self.hot_head = Some(self.entries.link(idx, self.hot_head));
            }
        } else {
            self.num_cold += 1;
            self.weight_cold += weight;
            if weight != 0 {
                self.cold_head = Some(self.entries.link(idx, self.cold_head));
            }
        }
        self.map_insert(hash, idx);
        Ok(())""")],
 'insert_map_first': [(S, """        if weight != 0 {
            *list_head = Some(self.entries.link(idx, *list_head));
        }
        self.map_insert(hash, idx);
        Ok(())""", """        if weight > 0 {
            let head = self.entries.link(idx, *list_head);
            *list_head = Some(head);
        }
        self.map_insert(hash, idx);
        Ok(())""")],
 'advance_hot_if': [(S, """            unpinned += 1;
            if *resident.referenced.get_mut() != 0 {
                *resident.referenced.get_mut() = (*resident.referenced.get_mut()).min(MAX_F) - 1;
                idx = next;
                continue;
            }""", """            unpinned += 1;
            let referenced = resident.referenced.get_mut();
            if *referenced > 0 {
                *referenced = (*referenced).min(MAX_F) - 1;
                idx = next;
                continue;
            }""")],
 'advance_hot_reorder': [(S, """                self.num_hot -= 1;
                let hash = Self::hash_static(&self.hash_builder, &resident.key);
                let Some((Entry::Resident(evicted), next)) = self.entries.remove(idx) else {
                    // Safety: we had a mut reference to the Resident under `idx` until the previous line
                    unsafe { core::hint::unreachable_unchecked() };
                };
                self.hot_head = next;
                self.lifecycle.on_evict(lcs, evicted.key, evicted.value);
                self.map_remove(hash, idx);""", """                let hash = Self::hash_static(&self.hash_builder, &resident.key);
                let Some((Entry::Resident(evicted), next)) = self.entries.remove(idx) else {
                    // Safety: we had a mut reference to the Resident under `idx` until the previous line
                    unsafe { core::hint::unreachable_unchecked() };
                };
                self.map_remove(hash, idx);
                self.hot_head = next;
                self.num_hot -= 1;
                self.lifecycle.on_evict(lcs, evicted.key, evicted.value);""")],
 'advance_cold_promote': [(S, """                *resident.referenced.get_mut() -= 1;
                resident.state = ResidentState::Hot;
                let weight = self.weighter.weight(&resident.key, &resident.value);
                self.weight_hot += weight;
                self.weight_cold -= weight;
                self.num_hot += 1;
                self.num_cold -= 1;
                self.cold_head = self.entries.unlink(idx);
                self.hot_head = Some(self.entries.link(idx, self.hot_head));
                // evict from hot if overweight
                while self.weight_hot > self.weight_target_hot && self.advance_hot(lcs) {}
                return true;""", """                let weight = self.weighter.weight(&resident.key, &resident.value);
                resident.state = ResidentState::Hot;
                *resident.referenced.get_mut() -= 1;
                self.num_cold -= 1;
                self.weight_cold -= weight;
                self.cold_head = self.entries.unlink(idx);
                self.num_hot += 1;
                self.weight_hot += weight;
                self.hot_head = Some(self.entries.link(idx, self.hot_head));
                // evict from hot if overweight
                while self.weight_hot > self.weight_target_hot {
                    if !self.advance_hot(lcs) {
                        break;
                    }
                }
                return true;""")],
 'advance_cold_helper': [(S, """                self.cold_head = self.entries.unlink(idx);
                self.hot_head = Some(self.entries.link(idx, self.hot_head));
                // evict from hot if overweight
                while self.weight_hot > self.weight_target_hot && self.advance_hot(lcs) {}
                return true;""", """                self.cold_head = self.entries.unlink(idx);
                self.hot_head = Some(self.entries.link(idx, self.hot_head));
                self.shrink_hot(lcs);
                return true;"""),
   (S, "    /// Advance hot ring evicting entries.", "    fn shrink_hot(&mut self, lcs: &mut L::RequestState) {\n        // evict from hot if overweight\n        while self.weight_hot > self.weight_target_hot && self.advance_hot(lcs) {}\n    }\n\n    /// Advance hot ring evicting entries.")],
 'advance_ghost_if': [(S, """            if self.num_non_resident > self.capacity_non_resident {
                self.advance_ghost();
            }
            self.lifecycle.on_evict(lcs, evicted.key, evicted.value);""", """            self.lifecycle.on_evict(lcs, evicted.key, evicted.value);
            while self.num_non_resident > self.capacity_non_resident {
                self.advance_ghost();
            }""")],
 'advance_ghost_match': [(S, """        let idx = self.ghost_head.unwrap();
        let (entry, _) = self.entries.get_mut(idx).unwrap();
        let Entry::Ghost(hash) = *entry else {
            unreachable!()
        };
        self.num_non_resident -= 1;
        self.map_remove(hash, idx);
        let (_, next) = self.entries.remove(idx).unwrap();
        self.ghost_head = next;""", """        let idx = self.ghost_head.unwrap();
        let Some((Entry::Ghost(hash), next)) = self.entries.remove(idx) else {
            unreachable!()
        };
        self.map_remove(hash, idx);
        self.ghost_head = next;
        self.num_non_resident -= 1;""")],
 'insert_existing_ref': [(S, """                referenced = resident
                    .referenced
                    .get_mut()
                    .saturating_add(
                        !matches!(strategy, InsertStrategy::Replace { soft: true }) as u16
                    )
                    .min(MAX_F);""", """                let count = *resident.referenced.get_mut();
                referenced = if matches!(strategy, InsertStrategy::Replace { soft: true }) {
                    count.min(MAX_F)
                } else {
                    count.saturating_add(1).min(MAX_F)
                };""")],
 'cold_change_weight_if': [(S, """        let (weight_ptr, target_head) = if resident.state == ResidentState::Hot {
            (&mut self.weight_hot, &mut self.hot_head)
        } else {
            (&mut self.weight_cold, &mut self.cold_head)
        };
        *weight_ptr -= old_weight;
        *weight_ptr += new_weight;
""", """        let (weight_ptr, target_head) = match resident.state {
            ResidentState::Hot => (&mut self.weight_hot, &mut self.hot_head),
            ResidentState::Cold => (&mut self.weight_cold, &mut self.cold_head),
        };
        *weight_ptr = *weight_ptr - old_weight + new_weight;
""")],
 'replace_placeholder_order': [(S, """        if self.weight_hot + self.weight_cold + weight <= self.weight_capacity {
            placeholder_hot = ResidentState::Hot;
        }
        *entry = Entry::Resident(Resident {
            key,
            value,
            state: placeholder_hot,
            referenced: (referenced as u16).into(),
        });
""", """        let fits = self.weight_hot + self.weight_cold + weight <= self.weight_capacity;
        let state = if fits { ResidentState::Hot } else { placeholder_hot };
        placeholder_hot = state;
        *entry = Entry::Resident(Resident {
            key,
            value,
            state,
            referenced: u16::from(referenced).into(),
        });
""")],
 'overweight_reorder': [(S, """        self.entries.remove(placeholder.idx());
        self.map_remove(placeholder.hash(), placeholder.idx());
        self.lifecycle.on_evict(lcs, key, value);
        Ok(())""", """        let idx = placeholder.idx();
        self.map_remove(placeholder.hash(), idx);
        self.entries.remove(idx);
        self.lifecycle.on_evict(lcs, key, value);
        Ok(())""")],
 'get_mut_weight_first': [(S, """        if *resident.referenced.get_mut() < MAX_F {
            *resident.referenced.get_mut() += 1;
        }
        record_hit_mut!(self);

        let old_weight = self.weighter.weight(&resident.key, &resident.value);
        Some(RefMut {""", """        let old_weight = self.weighter.weight(&resident.key, &resident.value);
        let referenced = resident.referenced.get_mut();
        if *referenced < MAX_F {
            *referenced += 1;
        }
        record_hit_mut!(self);
        Some(RefMut {""")],
 'peek_map': [(S, """        let (_, resident) = self.search_resident(hash, key)?;
        Some(&resident.value)""", "        self.search_resident(hash, key).map(|(_, resident)| &resident.value)")],
 'drain_order': [(S, """        self.cold_head = None;
        self.hot_head = None;
        self.ghost_head = None;
        self.num_hot = 0;
        self.num_cold = 0;
        self.num_non_resident = 0;
        self.weight_hot = 0;
        self.weight_cold = 0;
        self.map.clear();""", """        self.map.clear();
        self.reset_lists();"""), (S, "    pub fn iter(&self) -> impl", """    fn reset_lists(&mut self) {
        (self.cold_head, self.hot_head, self.ghost_head) = (None, None, None);
        self.num_hot = 0;
        self.num_cold = 0;
        self.num_non_resident = 0;
        self.weight_hot = 0;
        self.weight_cold = 0;
    }

    pub fn iter(&self) -> impl""")],
 'map_remove_match': [(S, """        if let Ok(entry) = self.map.find_entry(hash, |&i| i == idx) {
            entry.remove();
            return;
        }
        #[cfg(debug_assertions)]
        panic!("key not found");""", """        match self.map.find_entry(hash, |&i| i == idx) {
            Ok(entry) => {
                entry.remove();
            }
            Err(_) => {
                #[cfg(debug_assertions)]
                panic!("key not found");
            }
        }""")],
 'shard_for_idx': [(Y, """        self.shards.get(shard_idx).map(|s| (s, hash))""", """        let shard = self.shards.get(shard_idx)?;
        Some((shard, hash))""")],
 'shard_for_helper': [(Y, """        let shard_idx = (hash.rotate_right(usize::BITS / 2) & self.shards_mask) as usize;
        self.shards.get(shard_idx).map(|s| (s, hash))""", """        self.shards.get(self.shard_index(hash)).map(|s| (s, hash))"""), (Y, "    /// Reserver additional space for", """    #[inline]
    fn shard_index(&self, hash: u64) -> usize {
        (hash.rotate_right(usize::BITS / 2) & self.shards_mask) as usize
    }

    /// Reserver additional space for""")],
 'len_loop': [(Y, "self.shards.iter().map(|s| s.read().len()).sum()", """let mut total = 0;
        for s in self.shards.iter() {
            total += s.read().len();
        }
        total""")],
 'is_empty_any': [(Y, "self.shards.iter().all(|s| s.read().len() == 0)", "!self.shards.iter().any(|s| s.read().len() != 0)")],
 'is_empty_loop': [(Y, "self.shards.iter().all(|s| s.read().len() == 0)", """for s in self.shards.iter() {
            if s.read().len() != 0 {
                return false;
            }
        }
        true""")],
 'sync_get_match': [(Y, """        let (shard, hash) = self.shard_for(key)?;
        shard.read().get(hash, key).cloned()""", """        let (shard, hash) = self.shard_for(key)?;
        let guard = shard.read();
        match guard.get(hash, key) {
            Some(v) => Some(v.clone()),
            None => None,
        }""")],
 'clear_for_each': [(Y, """        for s in self.shards.iter() {
            s.write().clear();
        }""", "        self.shards.iter().for_each(|s| s.write().clear());")],
 'reserve_div_ceil': [(Y, """        for s in &*self.shards {
            s.write().reserve(additional_per_shard);
        }""", """        for i in 0..self.shards.len() {
            self.shards[i].write().reserve(additional_per_shard);
        }""")],
 'with_options_helper': [(Y, """        let mut shard_items_cap =
            estimated_items_capacity.saturating_add(num_shards - 1) / num_shards;
        let mut shard_weight_cap =
            options.weight_capacity.saturating_add(num_shards - 1) / num_shards;
        // try to make each shard hold at least 32 items
        while shard_items_cap < 32 && num_shards > 1 {
            num_shards /= 2;
            shard_items_cap = estimated_items_capacity.saturating_add(num_shards - 1) / num_shards;
            shard_weight_cap = weight_capacity.saturating_add(num_shards - 1) / num_shards;
        }""", """        let per_shard = |total: u64, n: u64| total.saturating_add(n - 1) / n;
        // try to make each shard hold at least 32 items
        while per_shard(estimated_items_capacity, num_shards) < 32 && num_shards > 1 {
            num_shards /= 2;
        }
        let shard_items_cap = per_shard(estimated_items_capacity, num_shards);
        let shard_weight_cap = per_shard(weight_capacity, num_shards);""")],
 'with_options_for': [(Y, """        let shards = (0..num_shards)
            .map(|_| {
                RwLock::new(CacheShard::new(
                    options.hot_allocation,
                    options.ghost_allocation,
                    shard_items_cap as usize,
                    shard_weight_cap,
                    weighter.clone(),
                    hash_builder.clone(),
                    lifecycle.clone(),
                ))
            })
            .collect::<Vec<_>>();""", """        let mut shards = Vec::with_capacity(num_shards as usize);
        for _ in 0..num_shards {
            shards.push(RwLock::new(CacheShard::new(
                options.hot_allocation,
                options.ghost_allocation,
                shard_items_cap as usize,
                shard_weight_cap,
                weighter.clone(),
                hash_builder.clone(),
                lifecycle.clone(),
            )));
        }""")],
 'sync_insert_scope': [(Y, """        let result = shard
            .write()
            .insert(&mut lcs, hash, key, value, InsertStrategy::Insert);
        // result cannot err with the Insert strategy
        debug_assert!(result.is_ok());
        lcs""", """        {
            let mut guard = shard.write();
            let result = guard.insert(&mut lcs, hash, key, value, InsertStrategy::Insert);
            // result cannot err with the Insert strategy
            debug_assert!(result.is_ok());
        }
        lcs""")],
 'sync_replace_match': [(Y, """        let lcs = self.replace_with_lifecycle(key, value, soft)?;
        self.lifecycle.end_request(lcs);
        Ok(())""", """        match self.replace_with_lifecycle(key, value, soft) {
            Ok(lcs) => {
                self.lifecycle.end_request(lcs);
                Ok(())
            }
            Err(pair) => Err(pair),
        }""")],
 # -- waiting, guards, wrappers
 'notify_order_if': [(P, """        match self {
            Waiter::Thread(t, n) => {
                n.store(true, atomic::Ordering::Release);
                t.unpark()
            }
            Waiter::Task(t) => {
                let mut t = t.write();
                t.notified = true;
                t.waker.wake_by_ref()
            }
        }""", """        match self {
            Waiter::Task(task) => {
                let mut task = task.write();
                task.notified = true;
                task.waker.wake_by_ref();
            }
            Waiter::Thread(thread, flag) => {
                flag.store(true, atomic::Ordering::Release);
                thread.unpark();
            }
        }""")],
 'is_task_match': [(P, "matches!(self, Waiter::Task(t) if Arc::ptr_eq(t, other))", """match self {
            Waiter::Task(t) => Arc::ptr_eq(t, other),
            Waiter::Thread(..) => false,
        }""")],
 'guard_insert_match': [(P, """        let lcs = self.insert_with_lifecycle(value)?;
        lifecycle.end_request(lcs);
        Ok(())""", """        match self.insert_with_lifecycle(value) {
            Ok(lcs) => {
                lifecycle.end_request(lcs);
                Ok(())
            }
            Err(value) => Err(value),
        }""")],
 'guard_insert_helper': [(P, """        let referenced;
        {
            let mut state = self.shared.state.write();
            state.loading = LoadingState::Inserted(value.clone());
            referenced = !state.waiters.is_empty();
            for w in state.waiters.drain(..) {
                w.notify();
            }
        }
""", """        let referenced = self.publish(&value);
"""), (P, "    /// Inserts the value into the placeholder\n", """    fn publish(&self, value: &Val) -> bool {
        let mut state = self.shared.state.write();
        state.loading = LoadingState::Inserted(value.clone());
        let referenced = !state.waiters.is_empty();
        for w in state.waiters.drain(..) {
            w.notify();
        }
        referenced
    }

    /// Inserts the value into the placeholder
""")],
 'guard_insert_take': [(P, """            for w in state.waiters.drain(..) {
                w.notify();
            }
""", """            for w in std::mem::take(&mut state.waiters) {
                w.notify();
            }
""")],
 'guard_insert_begin_first': [(P, """        self.inserted = true;

        let mut lcs = self.lifecycle.begin_request();
""", """        let mut lcs = self.lifecycle.begin_request();
        self.inserted = true;
""")],
 'drop_slow_match': [(P, """        if let Some(w) = state.waiters.pop() {
            debug_assert!(matches!(state.loading, LoadingState::Loading));
            w.notify();
        } else {
            state.loading = LoadingState::Terminated;
            shard.remove_placeholder(&self.shared);
        }""", """        match state.waiters.pop() {
            None => {
                shard.remove_placeholder(&self.shared);
                state.loading = LoadingState::Terminated;
            }
            Some(w) => {
                debug_assert!(matches!(state.loading, LoadingState::Loading));
                w.notify();
            }
        }""")],
 'drop_inline': [(P, """        if !self.inserted {
            self.drop_uninserted_slow();
        }""", """        if self.inserted {
            return;
        }
        self.drop_uninserted_slow();""")],
 'pending_waiter_order': [(P, """        if notified {
            if matches!(state.loading, LoadingState::Loading) {
                // The write guard was abandoned elsewhere, this future was notified but didn't get polled.
                // So we get and drop the guard here to handle the side effects.
                drop(state); // Drop state guard to avoid a deadlock with start_loading
                let _ = PlaceholderGuard::start_loading(*lifecycle, *shard, shared.clone());
            }
        } else {
            let waiter_idx = state.waiters.iter().position(|w| w.is_task(waiter));
            state.waiters.swap_remove(waiter_idx.unwrap());
        }""", """        if !notified {
            let waiter_idx = state.waiters.iter().position(|w| w.is_task(waiter)).unwrap();
            state.waiters.swap_remove(waiter_idx);
            return;
        }
        let mine = matches!(state.loading, LoadingState::Loading);
        drop(state); // Drop state guard to avoid a deadlock with start_loading
        if mine {
            let guard = PlaceholderGuard::start_loading(*lifecycle, *shard, shared.clone());
            drop(guard);
        }""")],
 'pending_waiter_remove': [(P, """            let waiter_idx = state.waiters.iter().position(|w| w.is_task(waiter));
            state.waiters.swap_remove(waiter_idx.unwrap());""", """            let waiter_idx = state.waiters.iter().position(|w| w.is_task(waiter));
            state.waiters.remove(waiter_idx.unwrap());""")],
 'poll_will_wake': [(P, """                    waiter.waker.clone_from(cx.waker());
                    return Poll::Pending;""", """                    if !waiter.waker.will_wake(cx.waker()) {
                        waiter.waker.clone_from(cx.waker());
                    }
                    return Poll::Pending;""")],
 'poll_waker_assign': [(P, """                if waiter.notified {
                    waiter.notified = false;
                } else {
                    waiter.waker.clone_from(cx.waker());
                    return Poll::Pending;
                }""", """                if !waiter.notified {
                    waiter.waker = cx.waker().clone();
                    return Poll::Pending;
                }
                waiter.notified = false;""")],
 'poll_if_let': [(P, """            Some(result) => {
                *waiter = None;
                *self = Self::Done;
                Poll::Ready(result)
            }
            None => {
                debug_assert!(waiter.is_some());
                Poll::Pending
            }
        }""", """            None => {
                debug_assert!(waiter.is_some());
                Poll::Pending
            }
            Some(result) => {
                waiter.take();
                *self = Self::Done;
                Poll::Ready(result)
            }
        }""")],
 'join_flag_helper': [(P, """                    thread::park();
                    if notification.load(atomic::Ordering::Acquire) {
                        break;
                    }""", """                    thread::park();
                    let told = notification.load(atomic::Ordering::Acquire);
                    if told {
                        break;
                    }""")],
 'join_while': [(P, """                loop {
                    thread::park();
                    if notification.load(atomic::Ordering::Acquire) {
                        break;
                    }
                }""", """                while !notification.load(atomic::Ordering::Acquire) {
                    thread::park();
                }""")],
 'join_remaining': [(P, """                    thread::park_timeout(timeout.saturating_sub(start.elapsed()));""", """                    {
                        let waited = start.elapsed();
                        thread::park_timeout(timeout.saturating_sub(waited));
                    }""")],
 'join_result_arms': [(P, """                return match result {
                    Ok(v) => GuardResult::Value(v),
                    Err(g) => GuardResult::Guard(g),
                };""", """                match result {
                    Ok(v) => return GuardResult::Value(v),
                    Err(g) => return GuardResult::Guard(g),
                }""")],
 'sync_contains_match': [(Y, """        self.shard_for(key)
            .is_some_and(|(shard, hash)| shard.read().contains(hash, key))""", """        match self.shard_for(key) {
            Some((shard, hash)) => shard.read().contains(hash, key),
            None => false,
        }""")],
 'sync_get_map': [(Y, "shard.read().get(hash, key).cloned()", "let guard = shard.read();\n        guard.get(hash, key).map(|v| v.clone())")],
 'sync_remove_scope': [(Y, """        let removed = shard.write().remove(hash, key);
        removed""", """        let mut guard = shard.write();
        guard.remove(hash, key)""")],
 'sync_gog_match': [(Y, """        if let Some(v) = shard.read().get(hash, key) {
            return GuardResult::Value(v.clone());
        }
        PlaceholderGuard::join(""", """        let found = shard.read().get(hash, key).cloned();
        if let Some(v) = found {
            return GuardResult::Value(v);
        }
        PlaceholderGuard::join(""")],
 'sync_goi_match': [(Y, """                let v = with()?;
                let _ = g.insert(v.clone());
                Ok(v)
            }
            GuardResult::Timeout => unreachable!(),""", """                match with() {
                    Ok(v) => {
                        let _ = g.insert(v.clone());
                        Ok(v)
                    }
                    Err(e) => Err(e),
                }
            }
            GuardResult::Timeout => unreachable!(),""")],
 'sync_goia_iflet': [(Y, """        match self.get_value_or_guard_async(key).await {
            Ok(v) => Ok(v),
            Err(g) => {
                let v = with.await?;
                let _ = g.insert(v.clone());
                Ok(v)
            }
        }""", """        let g = match self.get_value_or_guard_async(key).await {
            Ok(v) => return Ok(v),
            Err(g) => g,
        };
        let v = with.await?;
        let _ = g.insert(v.clone());
        Ok(v)""")],
 'sync_insert_hash_first': [(Y, """        let mut lcs = self.lifecycle.begin_request();
        let (shard, hash) = self.shard_for(&key).unwrap();
        let result = shard""", """        let (shard, hash) = self.shard_for(&key).unwrap();
        let mut lcs = self.lifecycle.begin_request();
        let result = shard""")],
 'sync_retain_for_each': [(Y, """        for s in self.shards.iter() {
            s.write().retain(&f);
        }""", """        for i in 0..self.shards.len() {
            let mut shard = self.shards[i].write();
            shard.retain(&f);
        }""")],
 'unsync_hash_local': [(U, "        self.shard.remove(self.shard.hash(key), key)", "        let hash = self.shard.hash(key);\n        self.shard.remove(hash, key)"),
   (U, "        self.shard.contains(self.shard.hash(key), key)", "        let hash = self.shard.hash(key);\n        self.shard.contains(hash, key)")],
 'unsync_goi_helper': [(U, """                let mut lcs = self.shard.lifecycle.begin_request();
                let replaced = self.shard.replace_placeholder(&mut lcs, &plh, false, v);
                self.shard.lifecycle.end_request(lcs);
                debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
                plh.idx""", """                self.store_loaded(&plh, v);
                plh.idx"""), (U, "    /// Gets or inserts an item in the cache with key `key`.", """    fn store_loaded(&mut self, plh: &SharedPlaceholder, v: Val) {
        let mut lcs = self.shard.lifecycle.begin_request();
        let replaced = self.shard.replace_placeholder(&mut lcs, plh, false, v);
        self.shard.lifecycle.end_request(lcs);
        debug_assert!(replaced.is_ok(), "unsync replace_placeholder can't fail");
    }

    /// Gets or inserts an item in the cache with key `key`.""")],
 'unsync_gomi_match': [(U, """        Ok(self.shard.peek_token_mut(idx).map(RefMut))
    }""", """        match self.shard.peek_token_mut(idx) {
            Some(r) => Ok(Some(RefMut(r))),
            None => Ok(None),
        }
    }""")],
 'unsync_get_mut_match': [(U, "        self.shard.get_mut(self.shard.hash(key), key).map(RefMut)", """        let hash = self.shard.hash(key);
        match self.shard.get_mut(hash, key) {
            Some(r) => Some(RefMut(r)),
            None => None,
        }""")],
 'unsync_replace_match': [(U, """        let lcs = self.replace_with_lifecycle(key, value, soft)?;
        self.shard.lifecycle.end_request(lcs);
        Ok(())""", """        self.replace_with_lifecycle(key, value, soft).map(|lcs| {
            self.shard.lifecycle.end_request(lcs);
        })""")],
 'guard_internal_if': [(U, """        if return_lcs {
            Some(lcs)
        } else {
            self.cache.shard.lifecycle.end_request(lcs);
            None
        }""", """        if !return_lcs {
            self.cache.shard.lifecycle.end_request(lcs);
            return None;
        }
        Some(lcs)""")],
 'options_contains': [(O, "            hot_allocation.clamp(0.0, 1.0) == hot_allocation,", "            (0.0..=1.0).contains(&hot_allocation),"), (O, "            ghost_allocation.clamp(0.0, 1.0) == ghost_allocation,", "            ghost_allocation >= 0.0 && ghost_allocation <= 1.0,")],
 'options_build_match': [(O, """        let weight_capacity = self
            .weight_capacity
            .ok_or(Error("weight_capacity is not set"))?;""", """        let weight_capacity = match self.weight_capacity {
            Some(weight_capacity) => weight_capacity,
            None => return Err(Error("weight_capacity is not set")),
        };"""), (O, "let shards = self.shards.unwrap_or_else(|| available_parallelism() * 4);", "let shards = match self.shards {\n            Some(shards) => shards,\n            None => available_parallelism() * 4,\n        };")],
 'options_let_else': [(O, """        let estimated_items_capacity = self
            .estimated_items_capacity
            .ok_or(Error("estimated_items_capacity is not set"))?;""", """        let Some(estimated_items_capacity) = self.estimated_items_capacity else {
            return Err(Error("estimated_items_capacity is not set"));
        };""")],
 'parallelism_nested': [(O, """    let mut ap = AVAILABLE_PARALLELISM.load(Ordering::Relaxed);
    if ap == 0 {
        ap = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(1);
        AVAILABLE_PARALLELISM.store(ap, Ordering::Relaxed);
    }
    ap""", """    let known = AVAILABLE_PARALLELISM.load(Ordering::Relaxed);
    if known != 0 {
        return known;
    }
    let ap = std::thread::available_parallelism().map_or(1, |n| n.get());
    AVAILABLE_PARALLELISM.store(ap, Ordering::Relaxed);
    ap""")],
}
def main():
    names = [a for a in sys.argv[1:] if not a.startswith('--')] or [k for k in R if R[k][0][1]]
    if '--list' in sys.argv:
        print('\n'.join(R)); return
    os.environ['VERIF_BUILD'] = os.environ.get('VERIF_BUILD', '/tmp/rfbuild')
    os.makedirs(os.environ['VERIF_BUILD'], exist_ok=True)
    sys.path.insert(0, V)
    import check
    check.NPROC = int(os.environ.get('RF_THREADS', '8'))
    exe = check.build_extract()
    for n in names:
        work = tempfile.mkdtemp(prefix='rf', dir='/tmp')
        try:
            shutil.copytree(BASE + '/src', work + '/src'); shutil.copy(BASE + '/Cargo.toml', work)
            for d in ('examples', 'benches', 'fuzz'):
                if os.path.isdir(f'{BASE}/{d}'): shutil.copytree(f'{BASE}/{d}', work + '/' + d, ignore=shutil.ignore_patterns('target'))
            if os.path.exists(BASE + '/Cargo.lock'): shutil.copy(BASE + '/Cargo.lock', work)
            for f, a, b in R[n]:
                s = open(work + '/' + f).read()
                assert s.count(a) >= 1, (n, f, a[:80])
                open(work + '/' + f, 'w').write(s.replace(a, b, 1))
            r = subprocess.run(['cargo', 'check', '--offline', '-q', '--lib'], cwd=work, text=True, capture_output=True, env=dict(os.environ, CARGO_TARGET_DIR='/tmp/rftarget'))
            if r.returncode:
                print(n, 'DOES NOT COMPILE', r.stderr[-1500:]); continue
            check.REPO = work
            w2 = work + '/w'; os.makedirs(w2)
            P = check.prove(exe, w2)
            print(f"{'ALARM' if P.failed else 'quiet'} {n}: problem={P.problem} stubs={P.stubs} {round(P.wall)}s")
            for e in P.failed: print('   FAILED', e['fn'], e['tags'], e['text'][:80], '|', e['message'][:60])
            for e in P.undecided: print('   undecided', e['fn'], e.get('why'), '|', e['message'][:60], e['line'])
            for x in P.rep['notes'] if P.rep else []: print('   note', x)
            sys.stdout.flush()
        finally:
            shutil.rmtree(work, ignore_errors=True)
if __name__ == '__main__':
    main()
