From 02ec4b6b04069232da602934c6b3dc613a9db1db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:42:28 +0000
Subject: [PATCH 01/13] fix: find_max_fit subtracts the item header and
 respects the item size limit

---
 src/queue/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..7e6676a 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -353,18 +353,22 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         let current_page = self.find_youngest_page().await?;
 
+        // The most that fits in an empty page
+        let max_page_fit = ItemHeader::available_data_bytes::<S>(calculate_page_size::<S>() as u32)
+            .map(|available| available.min(u32::from(u16::MAX)));
+
         // Check if we have space on the next page
         let next_page = self.inner.next_page(current_page);
         match self.inner.get_page_state_cached(next_page).await? {
             state @ PageState::Closed => {
                 if self.inner.is_page_empty(next_page, Some(state)).await? {
                     self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                    return Ok(max_page_fit);
                 }
             }
             PageState::Open => {
                 self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                return Ok(max_page_fit);
             }
             PageState::PartialOpen => {
                 // This should never happen
@@ -398,9 +402,10 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
-            page_data_end_address - next_item_address,
-        ))
+        Ok(
+            ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
+                .map(|available| available.min(u32::from(u16::MAX))),
+        )
     }
 
     /// Calculate how much space is left free in the queue (in bytes).
-- 
2.43.0


From e3dba450911892887274100e3425289b7c6292b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:42:28 +0000
Subject: [PATCH 02/13] fix: single page queues recognize an interrupted erase
 and can be reused when emptied

---
 src/cache/page_states.rs |  5 +++
 src/queue/mod.rs         | 71 ++++++++++++++++++++++++++++++----------
 2 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/src/cache/page_states.rs b/src/cache/page_states.rs
index eb3eab1..41706c5 100644
--- a/src/cache/page_states.rs
+++ b/src/cache/page_states.rs
@@ -122,6 +122,11 @@ impl SealedPageStatesCache for CalculatedPageStates {
     }
 
     fn notice_page_state(&mut self, page_index: usize, new_state: PageState) {
+        if self.page_count <= 1 {
+            // The typical layout doesn't apply, so there's nothing to calculate with
+            return;
+        }
+
         #[cfg(fuzzing)]
         eprintln!("Noticing page state: {page_index} -> {new_state:?}");
         #[cfg(fuzzing)]
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 7e6676a..602d72a 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -197,18 +197,23 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         let page_data_end_address =
             calculate_page_end_address::<S>(self.flash_range(), current_page) - S::WORD_SIZE as u32;
 
-        self.inner.partial_close_page(current_page).await?;
+        let current_page_state = self.inner.partial_close_page(current_page).await?;
 
         // Find the last item on the page so we know where we need to write
 
-        let mut next_address = self
-            .inner
-            .find_next_free_item_spot(
-                page_data_start_address,
-                page_data_end_address,
-                data.len() as u32,
-            )
-            .await?;
+        let mut next_address = match current_page_state {
+            // Only possible for single page queues. The page was already being emptied
+            PageState::Closed => None,
+            PageState::PartialOpen | PageState::Open => {
+                self.inner
+                    .find_next_free_item_spot(
+                        page_data_start_address,
+                        page_data_end_address,
+                        data.len() as u32,
+                    )
+                    .await?
+            }
+        };
 
         if next_address.is_none() {
             // No cap left on this page, move to the next page
@@ -230,16 +235,22 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         calculate_page_address::<S>(self.flash_range(), next_page)
                             + S::WORD_SIZE as u32;
 
+                    // A full single page can be reused when all its items are erased,
+                    // so check the items like we do for closed pages
                     if !allow_overwrite_old_data
                         && !self
                             .inner
-                            .is_page_empty(next_page, Some(next_page_state))
+                            .is_page_empty(next_page, Some(PageState::Closed))
                             .await?
                     {
                         self.inner.cache.unmark_dirty();
                         return Err(Error::FullStorage);
                     }
 
+                    if single_page {
+                        // Make sure that an interrupted erase can be recognized
+                        self.inner.close_page(current_page).await?;
+                    }
                     self.inner.open_page(next_page).await?;
                     if !single_page {
                         self.inner.close_page(current_page).await?;
@@ -359,18 +370,26 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
 
         // Check if we have space on the next page
         let next_page = self.inner.next_page(current_page);
-        match self.inner.get_page_state_cached(next_page).await? {
-            state @ PageState::Closed => {
-                if self.inner.is_page_empty(next_page, Some(state)).await? {
+        let single_page = next_page == current_page;
+        match (
+            self.inner.get_page_state_cached(next_page).await?,
+            single_page,
+        ) {
+            (PageState::Open, _) => {
+                self.inner.cache.unmark_dirty();
+                return Ok(max_page_fit);
+            }
+            (PageState::Closed, _) | (PageState::PartialOpen, true) => {
+                if self
+                    .inner
+                    .is_page_empty(next_page, Some(PageState::Closed))
+                    .await?
+                {
                     self.inner.cache.unmark_dirty();
                     return Ok(max_page_fit);
                 }
             }
-            PageState::Open => {
-                self.inner.cache.unmark_dirty();
-                return Ok(max_page_fit);
-            }
-            PageState::PartialOpen => {
+            (PageState::PartialOpen, false) => {
                 // This should never happen
                 return Err(Error::Corrupted {
                     #[cfg(feature = "_test")]
@@ -379,6 +398,17 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             }
         }
 
+        if self
+            .inner
+            .get_page_state_cached(current_page)
+            .await?
+            .is_closed()
+        {
+            // Only possible for single page queues. The page must be emptied before it can be used
+            self.inner.cache.unmark_dirty();
+            return Ok(None);
+        }
+
         // See how much space we can find in the current page.
         let page_data_start_address =
             calculate_page_address::<S>(self.flash_range(), current_page) + S::WORD_SIZE as u32;
@@ -520,6 +550,11 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             return Ok(first_open_page);
         }
 
+        // The page of a single page queue is closed while it's being emptied, which may have been interrupted
+        if self.inner.page_count().get() == 1 {
+            return Ok(0);
+        }
+
         // All pages are closed... This is not correct.
         Err(Error::Corrupted {
             #[cfg(feature = "_test")]
-- 
2.43.0


From b89275ecda08d08a25a33d9fb938f2100d044be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:36 +0000
Subject: [PATCH 03/13] fix: map removal and iteration do not trust a dirty
 cache

---
 src/map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 88a4bda..857b059 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -630,6 +630,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
@@ -785,6 +789,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         // Get the first page index.
         // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-- 
2.43.0


From fb2d4d221a412dcc5cb1e7f3e8c4f99ebc3ca7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 04/13] fix: map iterator reports storage errors when moving to
 the next page

---
 src/map.rs | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 857b059..adf74e7 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1091,34 +1091,38 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
             // The current page is done, we need to find the next page
             // Find next page which is not open, update `self.current_iter`
             loop {
-                self.current_page_index = self.storage.inner.next_page(self.current_page_index);
+                let next_page = self.storage.inner.next_page(self.current_page_index);
 
                 // We've looped back to the first page, which means all pages are checked, there's nothing left so we return None
-                if self.current_page_index == self.first_page {
+                if next_page == self.first_page {
                     return Ok(None);
                 }
 
-                match self
-                    .storage
-                    .inner
-                    .get_page_state_cached(self.current_page_index)
-                    .await
-                {
-                    Ok(PageState::Closed | PageState::PartialOpen) => {
-                        self.current_iter = ItemIter::new(
-                            calculate_page_address::<S>(
-                                self.storage.inner.flash_range.clone(),
-                                self.current_page_index,
-                            ) + S::WORD_SIZE as u32,
-                            calculate_page_end_address::<S>(
-                                self.storage.inner.flash_range.clone(),
-                                self.current_page_index,
-                            ) - S::WORD_SIZE as u32,
-                        );
-                        break;
-                    }
-                    _ => continue,
+                let next_page_state =
+                    match self.storage.inner.get_page_state_cached(next_page).await {
+                        Ok(state) => state,
+                        // A half-erased page has no items
+                        Err(Error::Corrupted { .. }) => PageState::Open,
+                        Err(e) => return Err(e),
+                    };
+
+                self.current_page_index = next_page;
+
+                if next_page_state.is_open() {
+                    continue;
                 }
+
+                self.current_iter = ItemIter::new(
+                    calculate_page_address::<S>(
+                        self.storage.inner.flash_range.clone(),
+                        self.current_page_index,
+                    ) + S::WORD_SIZE as u32,
+                    calculate_page_end_address::<S>(
+                        self.storage.inner.flash_range.clone(),
+                        self.current_page_index,
+                    ) - S::WORD_SIZE as u32,
+                );
+                break;
             }
         };
 
-- 
2.43.0


From 3df9c24df6e81ae664d13a2b537b45b08c747f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 05/13] fix: item iterator does not skip an item that could not
 be read

---
 src/item.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..a42f4f0 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -588,10 +588,14 @@ impl ItemIter {
         let mut data_buffer = Some(data_buffer);
         while let (Some(header), address) = self.header.next(flash).await? {
             let buffer = data_buffer.take().unwrap();
-            match header
+            // Only move on once the item has been read, so it's not skipped after an error or a cancellation
+            let next_address = core::mem::replace(&mut self.header.current_address, address);
+            let maybe_item = header
                 .read_item(flash, buffer, address, self.header.end_address)
-                .await?
-            {
+                .await?;
+            self.header.current_address = next_address;
+
+            match maybe_item {
                 MaybeItem::Corrupted(_, buffer) | MaybeItem::Erased(_, buffer) => {
                     data_buffer.replace(buffer);
                 }
-- 
2.43.0


From eb4b95d1ebe4cb68a3577a8381474ba48cbb0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:05 +0000
Subject: [PATCH 06/13] fix: map iteration repairs an interrupted page erase

---
 src/map.rs | 92 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 44 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index adf74e7..6abd46c 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -794,51 +794,8 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         }
 
         // Get the first page index.
-        // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-            function = {
-                match self
-                    .inner
-                    .find_first_page(0, PageState::PartialOpen)
-                    .await?
-                {
-                    Some(last_used_page) => {
-                        // The next page of the `PartialOpen` page is the first page
-                        Ok(self.inner.next_page(last_used_page))
-                    }
-                    None => {
-                        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-                        // If the page one before that is closed, then that's the last used page.
-                        if let Some(first_open_page) =
-                            self.inner.find_first_page(0, PageState::Open).await?
-                        {
-                            let previous_page = self.inner.previous_page(first_open_page);
-                            if self
-                                .inner
-                                .get_page_state_cached(previous_page)
-                                .await?
-                                .is_closed()
-                            {
-                                // The previous page is closed, so the first_open_page is what we want
-                                Ok(first_open_page)
-                            } else {
-                                // The page before the open page is not closed, so it must be open.
-                                // This means that all pages are open and that we don't have any items yet.
-                                self.inner.cache.unmark_dirty();
-                                Ok(0)
-                            }
-                        } else {
-                            // There are no open pages, so everything must be closed.
-                            // Something is up and this should never happen.
-                            // To recover, we will just erase all the flash.
-                            Err(Error::Corrupted {
-                                #[cfg(feature = "_test")]
-                                backtrace: std::backtrace::Backtrace::capture(),
-                            })
-                        }
-                    }
-                }
-            },
+            function = self.find_first_used_page().await,
             repair = self.try_repair(data_buffer).await?
         )?;
 
@@ -856,6 +813,53 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         })
     }
 
+    /// Find the page the iteration over all items has to start at.
+    ///
+    /// The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
+    async fn find_first_used_page(&mut self) -> Result<usize, Error<S::Error>> {
+        match self
+            .inner
+            .find_first_page(0, PageState::PartialOpen)
+            .await?
+        {
+            Some(last_used_page) => {
+                // The next page of the `PartialOpen` page is the first page
+                Ok(self.inner.next_page(last_used_page))
+            }
+            None => {
+                // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
+                // If the page one before that is closed, then that's the last used page.
+                if let Some(first_open_page) =
+                    self.inner.find_first_page(0, PageState::Open).await?
+                {
+                    let previous_page = self.inner.previous_page(first_open_page);
+                    if self
+                        .inner
+                        .get_page_state_cached(previous_page)
+                        .await?
+                        .is_closed()
+                    {
+                        // The previous page is closed, so the first_open_page is what we want
+                        Ok(first_open_page)
+                    } else {
+                        // The page before the open page is not closed, so it must be open.
+                        // This means that all pages are open and that we don't have any items yet.
+                        self.inner.cache.unmark_dirty();
+                        Ok(0)
+                    }
+                } else {
+                    // There are no open pages, so everything must be closed.
+                    // Something is up and this should never happen.
+                    // To recover, we will just erase all the flash.
+                    Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })
+                }
+            }
+        }
+    }
+
     async fn migrate_items(
         &mut self,
         data_buffer: &mut [u8],
-- 
2.43.0


From 5fca76c9e7e73c2d85c513fbaf7d5902c4dbc4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 07/13] fix: map removal finishes an interrupted migration
 first

---
 src/map.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 6abd46c..eb13f10 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -648,7 +648,24 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             .find_first_page(0, PageState::PartialOpen)
             .await?
         {
-            Some(last_used_page) => last_used_page,
+            Some(last_used_page) => {
+                if !self
+                    .inner
+                    .get_page_state_cached(self.inner.next_page(last_used_page))
+                    .await?
+                    .is_open()
+                {
+                    // The next page which serves as the buffer page is not open, so a migration was interrupted.
+                    // It has to be redone before anything is erased from its source page. Otherwise it could only
+                    // be redone with what a removal that gets interrupted as well has left there.
+                    return Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    });
+                }
+
+                last_used_page
+            }
             None => {
                 // Oh dear, there's no active partial open page. Seems like some operation was cancelled or didn't make it through.
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
-- 
2.43.0


From be93a66bfcc7929fc252287c652f7cf758e0faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 08/13] fix: an item read from flash exposes only its own bytes

---
 src/item.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index a42f4f0..fc132f0 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -156,9 +156,10 @@ impl ItemHeader {
                     let data_crc = adapted_crc32(data);
 
                     break if data_crc == header_crc {
+                        let item_data_buffer = &mut data_buffer[..self.length as usize];
                         Ok(MaybeItem::Present(Item {
                             header: self,
-                            item_data_buffer: data_buffer,
+                            item_data_buffer,
                         }))
                     } else {
                         if !retry {
-- 
2.43.0


From 1fcd634b38e5c77bcbeb9bb5bd7c4a8e68c5712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:06 +0000
Subject: [PATCH 09/13] fix: heapless string keys report a too small buffer as
 BufferTooSmall

---
 src/heapless_09_impl.rs | 2 +-
 src/heapless_impl.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapless_09_impl.rs b/src/heapless_09_impl.rs
index 43d11d6..49490ec 100644
--- a/src/heapless_09_impl.rs
+++ b/src/heapless_09_impl.rs
@@ -77,7 +77,7 @@ impl<LenType: heapless_09::LenType, const CAP: usize> Key for String<CAP, LenTyp
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
diff --git a/src/heapless_impl.rs b/src/heapless_impl.rs
index d22d487..b5dcc4b 100644
--- a/src/heapless_impl.rs
+++ b/src/heapless_impl.rs
@@ -78,7 +78,7 @@ impl<const CAP: usize> Key for String<CAP> {
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
-- 
2.43.0


From 7e1c8c4eafa87f3c5b0d9f09ffcce1d129ac3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 10/13] fix: try_new rejects ranges that end before they start

---
 src/map.rs       | 4 +++-
 src/queue/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index eb13f10..c19724e 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -45,7 +45,9 @@ impl<S: NorFlash> MapConfig<S> {
             return Err(MapConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 2 pages are used
-        if flash_range.end - flash_range.start < S::ERASE_SIZE as u32 * 2 {
+        if flash_range.end.saturating_sub(flash_range.start)
+            < (S::ERASE_SIZE as u32).saturating_mul(2)
+        {
             return Err(MapConfigError::RangeTooSmall);
         }
 
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 602d72a..e29a0cd 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -39,7 +39,7 @@ impl<S: NorFlash> QueueConfig<S> {
             return Err(QueueConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 1 page is used
-        if flash_range.end - flash_range.start < (S::ERASE_SIZE as u32) {
+        if flash_range.end.saturating_sub(flash_range.start) < (S::ERASE_SIZE as u32) {
             return Err(QueueConfigError::RangeTooSmall);
         }
 
-- 
2.43.0


From f49c94be58515f642436e244c11256a1954d40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:20 +0000
Subject: [PATCH 11/13] fix: buffered queue reports a too small buffer instead
 of acting as if it were empty

---
 src/queue/buffered.rs | 50 +++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..6a41a9e 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -140,6 +140,16 @@ impl<const N: usize> RamRing<N> {
         Some(&buf[..len])
     }
 
+    /// Copy the oldest item into `buf` and return its length, or `None` if the ring is empty.
+    ///
+    /// If `buf` is too small for the item, [`Error::BufferTooSmall`] is returned.
+    fn read_oldest<E>(&self, buf: &mut [u8]) -> Result<Option<usize>, Error<E>> {
+        match (self.oldest_len(), self.peek_into(buf)) {
+            (Some(len), None) => Err(Error::BufferTooSmall(len)),
+            (_, data) => Ok(data.map(<[u8]>::len)),
+        }
+    }
+
     /// Discard the oldest item without copying it. Does nothing if the ring is empty.
     pub fn discard_oldest(&mut self) {
         if let Some(len) = self.oldest_len() {
@@ -250,10 +260,9 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(data) = self.ram.peek_into(scratch) else {
+        let Some(len) = self.ram.read_oldest(scratch)? else {
             return Ok(false);
         };
-        let len = data.len();
         self.storage.push(&scratch[..len], allow_overwrite).await?;
         self.ram.discard_oldest();
         Ok(true)
@@ -287,8 +296,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
+        if let Some(len) = self.ram.read_oldest(data_buffer)? {
             self.ram.discard_oldest();
             return Ok(Some(&mut data_buffer[..len]));
         }
@@ -311,8 +319,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
-        if let Some(len) = len {
+        if let Some(len) = self.ram.read_oldest(data_buffer)? {
             return Ok(Some(&mut data_buffer[..len]));
         }
         Ok(None)
@@ -440,10 +447,7 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
-        let Some(len) = len else {
+        let Some(len) = self.ring.lock(|r| r.borrow().read_oldest(scratch))? else {
             return Ok(false);
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
@@ -489,11 +493,18 @@ impl<const N: usize> SharedRamRing<N> {
         data_buffer: &'d mut [u8],
         allow_overwrite: bool,
     ) -> Result<Option<&'d mut [u8]>, Error<S::Error>> {
+        let mut left_in_ring = None;
         if self.ram_pending_count() > 0 {
-            self.drain_all(storage, data_buffer, allow_overwrite)
-                .await?;
+            match self.drain_all(storage, data_buffer, allow_overwrite).await {
+                // An older item in flash can still fit
+                Err(Error::BufferTooSmall(len)) => left_in_ring = Some(len),
+                result => result?,
+            }
+        }
+        match (storage.pop(data_buffer).await?, left_in_ring) {
+            (None, Some(len)) => Err(Error::BufferTooSmall(len)),
+            (data, _) => Ok(data),
         }
-        storage.pop(data_buffer).await
     }
 
     /// Peek at the oldest item without removing it (drains ring to flash first).
@@ -503,11 +514,18 @@ impl<const N: usize> SharedRamRing<N> {
         data_buffer: &'d mut [u8],
         allow_overwrite: bool,
     ) -> Result<Option<&'d mut [u8]>, Error<S::Error>> {
+        let mut left_in_ring = None;
         if self.ram_pending_count() > 0 {
-            self.drain_all(storage, data_buffer, allow_overwrite)
-                .await?;
+            match self.drain_all(storage, data_buffer, allow_overwrite).await {
+                // An older item in flash can still fit
+                Err(Error::BufferTooSmall(len)) => left_in_ring = Some(len),
+                result => result?,
+            }
+        }
+        match (storage.peek(data_buffer).await?, left_in_ring) {
+            (None, Some(len)) => Err(Error::BufferTooSmall(len)),
+            (data, _) => Ok(data),
         }
-        storage.peek(data_buffer).await
     }
 
     // ── Introspection ─────────────────────────────────────────────────────────
-- 
2.43.0


From 61c7307a5fa1a140d373c14b4d2a5dc6ed2cd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 12/13] fix: shared ring no longer drops an item when the one
 being drained is discarded during the write

---
 src/queue/buffered.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index 6a41a9e..be69a62 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -47,6 +47,8 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// Number of items removed so far (wrapping). Tells whether the oldest item is still the same.
+    removed: usize,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -58,6 +60,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            removed: 0,
         }
     }
 
@@ -156,6 +159,7 @@ impl<const N: usize> RamRing<N> {
             self.read_pos = (self.read_pos + 2 + len) % N;
             self.used -= 2 + len;
             self.item_count -= 1;
+            self.removed = self.removed.wrapping_add(1);
         }
     }
 
@@ -447,11 +451,22 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(len) = self.ring.lock(|r| r.borrow().read_oldest(scratch))? else {
+        let (oldest, removed) = self.ring.lock(|r| {
+            let ring = r.borrow();
+            (ring.read_oldest(scratch), ring.removed)
+        });
+        let Some(len) = oldest? else {
             return Ok(false);
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut ring = r.borrow_mut();
+            // During the write the item may have been discarded to make room for a new one.
+            // Then the oldest item is one that isn't in flash yet.
+            if ring.removed == removed {
+                ring.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From ca4ed48f83ef64b0a710c93bf763f5d25d5d1d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:37 +0000
Subject: [PATCH 13/13] fix: key caches without any slots no longer panic

---
 src/cache/key_pointers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 726eec1..8ab8960 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -130,9 +130,12 @@ pub(crate) struct TrackedKeyPointers<'a, KEY: Eq> {
 
 impl<'a, KEY: Eq> TrackedKeyPointers<'a, KEY> {
     fn insert_front(&mut self, value: (KEY, NonZeroU32)) {
-        let len = self.key_pointers.len();
-        self.key_pointers[len - 1] = Some(value);
-        move_to_front(self.key_pointers, len - 1);
+        // A cache without any room can't remember anything
+        let Some(last_index) = self.key_pointers.len().checked_sub(1) else {
+            return;
+        };
+        self.key_pointers[last_index] = Some(value);
+        move_to_front(self.key_pointers, last_index);
     }
 }
 
-- 
2.43.0

