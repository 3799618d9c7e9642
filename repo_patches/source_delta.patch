From 0c197800f459a30772d452fac3f2b080084afb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 01/31] fix: retain the stroke style's fetch data when
 swap_styles saves the stroke style

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..432a54d 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1965,7 +1965,7 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
 
     if (bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       ctx_impl->saved_state->style[kStrokeSlot].copy_from(state.style[kStrokeSlot]);
-      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
         state.style[kStrokeSlot].get_render_fetch_data()->ref_count++;
     }
 
-- 
2.43.0


From 06aac9877c74009ec96cc254c990f8cb57e9a6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 02/31] fix: restore stroke caps and join changed after save

---
 blend2d/raster/rastercontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 432a54d..7f91caf 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2082,7 +2082,7 @@ static BLResult BL_CDECL set_stroke_cap_impl(BLContextImpl* base_impl, BLStrokeC
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.caps[position] = uint8_t(stroke_cap);
   return BL_SUCCESS;
@@ -2095,7 +2095,7 @@ static BLResult BL_CDECL set_stroke_caps_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   for (uint32_t i = 0; i <= BL_STROKE_CAP_POSITION_MAX_VALUE; i++)
     ctx_impl->internal_state.stroke_options.caps[i] = uint8_t(stroke_cap);
@@ -2109,7 +2109,7 @@ static BLResult BL_CDECL set_stroke_join_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.join = uint8_t(stroke_join);
   return BL_SUCCESS;
-- 
2.43.0


From 54b41b2a6aff9677dd1100eeeedd7f080d1e8aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 03/31] fix: keep the last color stop when assigning unsorted
 gradient stops

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ba5fd61..4154d2e 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   double prev1 = -1.0; // Dummy, cannot be within [0..1] range.
   double prev2 = -1.0;
 
-  for (size_t i = 0; i < n - 1u; i++) {
+  for (size_t i = 0; i < n; i++) {
     double offset = stops[i].offset;
     BLRgba64 rgba = src[size_t(stops[i].index)].rgba;
 
-- 
2.43.0


From 92a27fd45dc89859c6682955914e68930e3bcc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 04/31] fix: drop the stroke state shared with workers when
 approximation options change

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 7f91caf..98ea17e 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1689,7 +1689,7 @@ static BLResult BL_CDECL restore_impl(BLContextImpl* base_impl, const BLContextC
       on_after_flatten_tolerance_changed(ctx_impl);
       on_after_offset_parameter_changed(ctx_impl);
 
-      context_flags_to_keep &= ~ContextFlags::kSharedStateFill;
+      context_flags_to_keep &= ~(ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
     }
 
     if (!bl_test_flag(current_flags, ContextFlags::kWeakStateClip)) {
@@ -1860,7 +1860,7 @@ static BLResult BL_CDECL set_flatten_mode_impl(BLContextImpl* base_impl, BLFlatt
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kWeakStateConfig;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.approximation_options.flatten_mode = uint8_t(mode);
   return BL_SUCCESS;
@@ -1873,7 +1873,7 @@ static BLResult BL_CDECL set_flatten_tolerance_impl(BLContextImpl* base_impl, do
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   tolerance = bl_clamp(tolerance, ContextInternal::kMinimumTolerance, ContextInternal::kMaximumTolerance);
   BL_ASSERT(Math::is_finite(tolerance));
@@ -1900,7 +1900,7 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   BLApproximationOptions& dst = ctx_impl->internal_state.approximation_options;
   dst.flatten_mode = uint8_t(flatten_mode);
-- 
2.43.0


From ed0d63744422a498158d8ff2051cf176afadad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 05/31] fix: swap only the fill and stroke flags when swapping
 styles

swap_styles() shifted the 'no alpha', 'no style' and 'fetch data' flags in
both directions with one mask, so unrelated neighbouring flags (for example
'stroke alpha is zero') were copied into the flags of the swapped styles and
later fills or strokes were silently skipped.
---
 blend2d/raster/rastercontext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 98ea17e..02bcd1e 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1977,8 +1977,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     state.style[kFillSlot].swap(state.style[kStrokeSlot]);
     BLInternal::swap(state.style_type[kFillSlot], state.style_type[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeStyle | ContextFlags::kFetchDataFillAndStroke;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillStyle | ContextFlags::kFetchDataFill;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeStyle | ContextFlags::kFetchDataStroke;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags >> 1) & kFillFlags) | ((context_flags << 1) & kStrokeFlags);
   }
 
   // Swap fill and stroke alphas.
@@ -1986,8 +1987,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.style_alpha[kFillSlot], state.style_alpha[kStrokeSlot]);
     BLInternal::swap(state.styleAlphaI[kFillSlot], state.styleAlphaI[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeAlpha;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillAlpha;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeAlpha;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags >> 1) & kFillFlags) | ((context_flags << 1) & kStrokeFlags);
   }
 
   ctx_impl->context_flags = context_flags;
-- 
2.43.0


From 7dbe35787850a907f2c37e7c9474506ed84e3b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 06/31] fix: access the cached cardinality of a const BitSet
 atomically

---
 blend2d/core/bitset.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index d7fc868..143b7c9 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -339,7 +339,7 @@ static BL_NOINLINE BLResult init_dynamic_with_data(BLBitSetCore* self, BLObjectI
 //! If the returned value is zero it means that the cardinality is either not cached or zero. This means that zero
 //! is always an unreliable value, which cannot be trusted. The implementation in general resets cardinality to zero
 //! every time the BitSet is modified.
-static BL_INLINE uint32_t get_cached_cardinality(const BLBitSetCore* self) noexcept { return self->_d.u32_data[2]; }
+static BL_INLINE uint32_t get_cached_cardinality(const BLBitSetCore* self) noexcept { return bl_atomic_fetch_relaxed(&self->_d.u32_data[2]); }
 
 //! Resets cached cardinality to zero, which signalizes that it's not valid.
 static BL_INLINE BLResult reset_cached_cardinality(BLBitSetCore* self) noexcept {
@@ -348,8 +348,10 @@ static BL_INLINE BLResult reset_cached_cardinality(BLBitSetCore* self) noexcept
 }
 
 //! Updates cached cardinality to `cardinality` after the cardinality has been calculated.
+//!
+//! The cache can be updated by multiple threads that share the same const BitSet, so the access must be atomic.
 static BL_INLINE void update_cached_cardinality(const BLBitSetCore* self, uint32_t cardinality) noexcept {
-  const_cast<BLBitSetCore*>(self)->_d.u32_data[2] = cardinality;
+  bl_atomic_store_relaxed(&const_cast<BLBitSetCore*>(self)->_d.u32_data[2], cardinality);
 }
 
 // bl::BitSet - Dynamic - Segment Utilities
-- 
2.43.0


From d3e7ba413f6bfa3095230032fb7879ed0563d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 07/31] fix: replacing a gradient stop with an invalid offset
 must not remove the stop

---
 blend2d/core/gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 4154d2e..85b7e66 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -922,6 +922,10 @@ BL_API_IMPL BLResult bl_gradient_replace_stop_rgba64(BLGradientCore* self, size_
   if (BL_UNLIKELY(index >= get_size(self)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+  // Must be checked here as the stop would be already removed when `bl_gradient_add_stop_rgba64()` refuses the offset.
+  if (BL_UNLIKELY(!(offset >= 0.0 && offset <= 1.0)))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   BL_PROPAGATE(make_mutable(self, false));
 
   BLGradientPrivateImpl* self_impl = get_impl(self);
-- 
2.43.0


From 24c8630cc7a68864c829f9cbe0abd2a601f57496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 08/31] fix: a failed string format operation must not change
 the content of the string

---
 blend2d/core/string.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..416a6f6 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -642,13 +642,17 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
   va_list ap_copy;
   va_copy(ap_copy, ap);
 
-  if ((remaining & mutable_msk) >= 64) {
+  // Only format in-place when appending - the content must be kept if the formatting fails or if there is not enough
+  // memory to hold the formatted text.
+  if ((remaining & mutable_msk) >= 64 && bl_modify_op_is_append(op)) {
     // vsnprintf() expects null terminator to be included in the size of the buffer.
     char* dst = u.data;
     fmt_result = vsnprintf(dst + index, remaining + 1, fmt, ap);
 
-    if (BL_UNLIKELY(fmt_result < 0))
+    if (BL_UNLIKELY(fmt_result < 0)) {
+      dst[index] = '\0';
       return bl_make_error(BL_ERROR_INVALID_VALUE);
+    }
 
     output_size = size_t(unsigned(fmt_result));
     if (BL_LIKELY(output_size <= remaining)) {
@@ -658,6 +662,9 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
       set_size(self, index + output_size);
       return BL_SUCCESS;
     }
+
+    // Restore the null terminator overwritten by `vsnprintf()`.
+    dst[index] = '\0';
   }
   else {
     fmt_result = vsnprintf(buf, BL_ARRAY_SIZE(buf), fmt, ap);
-- 
2.43.0


From cb1544f3cc9b92f71121b50688d0262b251ad418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 09/31] fix: clearing a path must invalidate its cached
 bounding boxes and flags

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index b7af701..19b2ef6 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -352,7 +352,7 @@ BL_API_IMPL BLResult bl_path_clear(BLPathCore* self) noexcept {
     return replace_instance(self, static_cast<BLPathCore*>(&bl_object_defaults[BL_OBJECT_TYPE_PATH]));
 
   self_impl->size = 0;
-  self_impl->flags = 0;
+  self_impl->flags = BL_PATH_FLAG_DIRTY;
   return BL_SUCCESS;
 }
 
-- 
2.43.0


From a3a7c7a4f2b83b845e72301de2a48090770417fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 10/31] fix: bl_var_to_bool() must store the result of
 converting a string

---
 blend2d/core/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 8dda62c..c21d5f1 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -217,7 +217,8 @@ BL_API_IMPL BLResult bl_var_to_bool(const BLUnknown* self, bool* out) noexcept {
     }
 
     case BL_OBJECT_TYPE_STRING: {
-      return !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      *out = !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      return BL_SUCCESS;
     }
 
     default: {
-- 
2.43.0


From b1ee6a6edd09263e83889d312e4d376c436da40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 11/31] fix: a bit array that takes its own copy of shared data
 must keep its bits

---
 blend2d/core/bitarray.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..fd57b37 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -94,14 +94,19 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     }
 
     BLBitArrayCore newO;
+    size_t word_count = word_count_from_bit_count(size);
+
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      bl::MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count);
 
       *out = BitData{self->_d.u32_data, size};
       return replace_instance(self, &newO);
     }
 
-    BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), size));
+    bl::MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count);
+
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
-- 
2.43.0


From 3657804cfc598a2e1a5c34927ab737e052b2a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 12/31] fix: bl_bit_array_assign_words() overflowed the inline
 storage and lost the size

---
 blend2d/core/bitarray.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index fd57b37..331e597 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -331,17 +331,16 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
     size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-    if ((word_count | immutable_msk) > capacity_in_words) {
-      BLBitArrayCore newO;
-      init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
-      bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
+    if ((word_count | immutable_msk) <= capacity_in_words) {
+      self_impl->size = uint32_t(bit_count_from_word_count(word_count));
+      bl::MemOps::copy_forward_inline_t(self_impl->data(), word_data, word_count);
 
-      return replace_instance(self, &newO);
+      return BL_SUCCESS;
     }
   }
 
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
+  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), bit_count_from_word_count(word_count)));
 
   BLBitArrayImpl* new_impl = get_impl(&newO);
   bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
-- 
2.43.0


From 9b138195162733da18ec8277c64dda566a8d3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 13/31] fix: bits added by resizing a bit array must be zero

---
 blend2d/core/bitarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 331e597..16a901d 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -678,6 +678,8 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   size_t word_count = word_count_from_bit_count(bit_count);
 
   bl::MemOps::copy_forward_inline_t(dst, d.data, word_count);
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
+
   uint32_t last_word_bit_count = uint32_t(bit_count & bl::BitArrayOps::kBitMask);
 
   if (last_word_bit_count)
-- 
2.43.0


From 06f826ae958f4fd6367fa32a61ede48d79ba10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:08 +0000
Subject: [PATCH 14/31] fix: removing stops from a shared gradient lost all the
 remaining stops

---
 blend2d/core/gradient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 85b7e66..826f09f 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -874,6 +874,7 @@ BL_API_IMPL BLResult bl_gradient_remove_stops_by_index(BLGradientCore* self, siz
     BLGradientStop* new_stops = new_impl->stops;
     copy_stops(new_stops, stops, index);
     copy_stops(new_stops + index, stops + end, shifted_count);
+    new_impl->size = after_count;
     return replace_instance(self, &newO);
   }
   else {
-- 
2.43.0


From 3a9cae28c9b7a6e3758b5608b70b06bc19efd34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 15/31] fix: truncating an array must release the removed
 objects, not the first ones

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..7da8155 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -577,7 +577,7 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
     }
     else {
       set_size(self, n);
-      release_content_by_type(u.data, (u.size - n) * item_size, array_type);
+      release_content_by_type(u.data + n * item_size, (u.size - n) * item_size, array_type);
       return BL_SUCCESS;
     }
   }
-- 
2.43.0


From cd4e2ae7870ff558ab85a331acdb864d73bd0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 16/31] fix: bl_array_assign_data() allocated storage for the
 old size, not for the new one

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 7da8155..0144ec7 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -883,7 +883,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
-- 
2.43.0


From 76ae555caf8f68e6b04706bd0e4887a9575cd03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 17/31] fix: bl_array_replace_data() must move the tail of the
 array and check its capacity

---
 blend2d/core/array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 0144ec7..f78c024 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1198,14 +1198,14 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(size_after <= u.capacity && (items_ptr >= u.data + u.size * item_size || items_end <= u.data))) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
         set_size(self, size_after);
       }
-- 
2.43.0


From 1e28283ab0d340a270ff100af3a6daff627abb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 18/31] fix: growing an array by an assign operation must
 release the objects it held

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index f78c024..7428024 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -761,7 +761,7 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
+    if (!bl_modify_op_is_assign(op) && self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
       // Use memcpy() instead of weak copying if the original data is gonna be destroyed.
       memcpy(dst, u.data, index * item_size);
       // We have to patch the source Impl as release_instance() as we have moved the content.
-- 
2.43.0


From 213d9c4cf0c3e620f4881c1b9d55c2531d537e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 19/31] fix: destroying an array of objects must release the
 objects it holds

---
 blend2d/core/array.cpp  |  4 +++-
 blend2d/core/array_p.h  | 10 +++++-----
 blend2d/core/object.cpp |  2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 7428024..1f36cae 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -302,9 +302,11 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   return replace_instance(self, &newO);
 }
 
-BLResult free_impl(BLArrayImpl* impl) noexcept {
+BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
   if (ObjectInternal::is_impl_external(impl))
     ObjectInternal::call_external_destroy_func(impl, impl->data);
+  else
+    release_content_by_type(impl->data, impl->size * item_size_from_array_type(array_type), array_type);
   return ObjectInternal::free_impl(impl);
 }
 
diff --git a/blend2d/core/array_p.h b/blend2d/core/array_p.h
index 410c40a..adea4df 100644
--- a/blend2d/core/array_p.h
+++ b/blend2d/core/array_p.h
@@ -23,11 +23,11 @@ static BL_INLINE bool is_impl_mutable(const BLArrayImpl* impl) noexcept {
   return ObjectInternal::is_impl_mutable(impl);
 }
 
-BL_HIDDEN BLResult free_impl(BLArrayImpl* impl) noexcept;
+BL_HIDDEN BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept;
 
 template<RCMode kRCMode>
-static BL_INLINE BLResult release_impl(BLArrayImpl* impl) noexcept {
-  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl) : BLResult(BL_SUCCESS);
+static BL_INLINE BLResult release_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl, array_type) : BLResult(BL_SUCCESS);
 }
 
 //! \}
@@ -56,7 +56,7 @@ static BL_INLINE BLResult retain_instance(const BLArrayCore* self, size_t n = 1)
 }
 
 static BL_INLINE BLResult release_instance(BLArrayCore* self) noexcept {
-  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self)) : BLResult(BL_SUCCESS);
+  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self), self->_d.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore* other) noexcept {
@@ -65,7 +65,7 @@ static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore*
   BLObjectInfo info = self->_d.info;
 
   self->_d = other->_d;
-  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl)) : BLResult(BL_SUCCESS);
+  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl), info.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 //! \}
diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index aca6a10..e1a5c62 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -148,7 +148,7 @@ BLResult bl_object_destroy_unknown_impl(BLObjectImpl* impl, BLObjectInfo info) n
     case BL_OBJECT_TYPE_ARRAY_STRUCT_20:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_24:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_32:
-      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl));
+      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl), type);
 
     case BL_OBJECT_TYPE_BIT_SET:
       // NOTE: It's guaranteed that this BitSet is dynamic, so we don't have to correct the type.
-- 
2.43.0


From 697c0645cd7badf1c177780af16eabf4ce7395fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:41 +0000
Subject: [PATCH 20/31] fix: read the number of pooled threads under the lock
 that protects it

---
 blend2d/threading/threadpool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blend2d/threading/threadpool.cpp b/blend2d/threading/threadpool.cpp
index 71edf27..f4074ad 100644
--- a/blend2d/threading/threadpool.cpp
+++ b/blend2d/threading/threadpool.cpp
@@ -143,7 +143,9 @@ static uint32_t BL_CDECL bl_thread_pool_max_thread_count(const BLThreadPool* sel
 }
 
 static uint32_t BL_CDECL bl_thread_pool_pooled_thread_count(const BLThreadPool* self_) noexcept {
-  const BLInternalThreadPool* self = static_cast<const BLInternalThreadPool*>(self_);
+  BLInternalThreadPool* self = static_cast<BLInternalThreadPool*>(const_cast<BLThreadPool*>(self_));
+  BLLockGuard<BLMutex> guard(self->mutex);
+
   return self->pooled_thread_count;
 }
 
-- 
2.43.0


From 5a527d9853d8f2c851be57b9077f170da7f24e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 21/31] fix: bl_bit_array_reserve must not allocate less than
 the current size

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 16a901d..42d1e34 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -712,7 +712,7 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(bl_max<size_t>(n_bits, d.size)));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
-- 
2.43.0


From 9df5ecbf77040f3cf5bd5e563f6ccad7d0bedea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 22/31] fix: BLBitArray::reserve must not resize the bit array

---
 blend2d/core/bitarray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.h b/blend2d/core/bitarray.h
index 5fa6406..e705716 100644
--- a/blend2d/core/bitarray.h
+++ b/blend2d/core/bitarray.h
@@ -265,7 +265,7 @@ public:
   BL_INLINE_NODEBUG BLResult resize(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
 
   //! Reserves `n_bits` in the BitArray (capacity would match `n_bits`) without changing its size.
-  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
+  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_reserve(this, n_bits); }
 
   //! Shrinks the capacity of the BitArray to match the actual content with the intention to save memory.
   BL_INLINE_NODEBUG BLResult shrink() noexcept { return bl_bit_array_shrink(this); }
-- 
2.43.0


From da93ae185c7920a30f7cd69a84b2aa565cc54515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:29 +0000
Subject: [PATCH 23/31] fix: bl_font_position_glyphs must not use advances that
 could not be read

---
 blend2d/core/font.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 89a4002..160e6e9 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -469,7 +469,7 @@ BL_API_IMPL BLResult bl_font_position_glyphs(const BLFontCore* self, BLGlyphBuff
 
   if (!(gb_impl->flags & BL_GLYPH_BUFFER_GLYPH_ADVANCES)) {
     BL_PROPAGATE(gb_impl->ensure_placement());
-    face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+    BL_PROPAGATE(face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size));
     gb_impl->glyph_run.placement_type = uint8_t(BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET);
     gb_impl->flags |= BL_GLYPH_BUFFER_GLYPH_ADVANCES;
   }
-- 
2.43.0


From ec1fa39fc3f62edb26bb59f0c72d2002d6e56290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 24/31] fix: an image scale filter whose weights could not be
 computed must not be used

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 6429df3..cd3a0f0 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -891,8 +891,8 @@ BLResult ImageScaleContext::create(const BLSizeI& to, const BLSizeI& from, uint3
 
   // Built-in filters will probably never fail, however, custom filters can and
   // it wouldn't be safe to just continue.
-  image_scale_ops.weights(d, kDirHorz, filter_func);
-  image_scale_ops.weights(d, kDirVert, filter_func);
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirHorz, filter_func));
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirVert, filter_func));
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From 64b7c5c40e1e0f95557871e4827d184ce6ca6b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 25/31] fix: a text job must not render the previous text when
 its own text could not be set

---
 blend2d/raster/renderjobproc_p.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/blend2d/raster/renderjobproc_p.h b/blend2d/raster/renderjobproc_p.h
index 3f48d91..18d15a8 100644
--- a/blend2d/raster/renderjobproc_p.h
+++ b/blend2d/raster/renderjobproc_p.h
@@ -158,20 +158,24 @@ static void process_fill_text_job(WorkData* work_data, RenderJob_TextOp* job) no
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS)
+      result = font.shape(*glyph_buffer);
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
     glyph_run = &job->_glyph_run;
   }
 
-  if (result == BL_SUCCESS) {
+  if (result != BL_SUCCESS) {
+    work_data->accumulate_error(result);
+  }
+  else {
     JobStateAccessor accessor(job);
     prepare_edge_builder(work_data, accessor.fill_state());
 
@@ -218,20 +222,24 @@ static void process_stroke_text_job(WorkData* work_data, RenderJob_TextOp* job)
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS)
+      result = font.shape(*glyph_buffer);
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
     glyph_run = &job->_glyph_run;
   }
 
-  if (result == BL_SUCCESS) {
+  if (result != BL_SUCCESS) {
+    work_data->accumulate_error(result);
+  }
+  else {
     JobStateAccessor accessor(job);
     prepare_edge_builder(work_data, accessor.fill_state());
 
-- 
2.43.0


From f5a40077a6352ebacdcbbf3c24ae3462400759c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 26/31] fix: report that the band data of a worker thread could
 not be allocated

---
 blend2d/raster/workermanager.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/workermanager.cpp b/blend2d/raster/workermanager.cpp
index a13c711..ad77181 100644
--- a/blend2d/raster/workermanager.cpp
+++ b/blend2d/raster/workermanager.cpp
@@ -106,7 +106,17 @@ BLResult WorkerManager::init(BLRasterContextImpl* ctx_impl, const BLContextCreat
       WorkerSynchronization* synchronization = &_synchronization;
       for (uint32_t i = 0; i < n; i++) {
         bl_call_ctor(*work_data_storage[i], ctx_impl, synchronization, i + 1);
-        work_data_storage[i]->init_band_data(ctx_impl->band_height(), ctx_impl->band_count(), ctx_impl->command_quantization_shift_aa());
+        BLResult result = work_data_storage[i]->init_band_data(ctx_impl->band_height(), ctx_impl->band_count(), ctx_impl->command_quantization_shift_aa());
+
+        if (BL_UNLIKELY(result != BL_SUCCESS)) {
+          for (uint32_t j = 0; j <= i; j++)
+            bl_call_dtor(*work_data_storage[j]);
+
+          thread_pool->release_threads(worker_threads, n);
+          thread_pool->release();
+          zone.restore_state(zone_state);
+          return result;
+        }
       }
     }
 
-- 
2.43.0


From b89ad8221d759eec3af4feec410f830c1e7404cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 27/31] fix: reading and writing a file in several steps must
 advance the buffer

---
 blend2d/core/filesystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 13d3f15..0dcc199 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -760,6 +760,7 @@ BL_API_IMPL BLResult bl_file_read(BLFileCore* self, void* buffer, size_t n, size
       if (bytes_read == n || result == 0) {
         break;
       }
+      buffer = bl::PtrOps::offset(buffer, size_t(result));
     }
   }
 
@@ -796,6 +797,7 @@ BL_API_IMPL BLResult bl_file_write(BLFileCore* self, const void* buffer, size_t
       if (bytes_written == n || result == 0) {
         break;
       }
+      buffer = bl::PtrOps::offset(buffer, size_t(result));
     }
   }
 
-- 
2.43.0


From cc1fac26173482b34bf791e7b1ccc3489ae9439f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:38 +0000
Subject: [PATCH 28/31] fix: the second step of a multi-step pixel converter
 was never initialised

---
 blend2d/core/pixelconverter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pixelconverter.cpp b/blend2d/core/pixelconverter.cpp
index 3335efa..b59e3a1 100644
--- a/blend2d/core/pixelconverter.cpp
+++ b/blend2d/core/pixelconverter.cpp
@@ -2204,7 +2204,7 @@ static BLResult bl_pixel_converter_init_multi_step_internal(BLPixelConverterCore
 
   memset(ctx, 0, sizeof(*ctx));
   if ((result = bl_pixel_converter_init_internal(&ctx->first, intermediate, si, custom_flags)) != BL_SUCCESS ||
-      (result = bl_pixel_converter_init_internal(&ctx->first, di, intermediate, custom_flags)) != BL_SUCCESS) {
+      (result = bl_pixel_converter_init_internal(&ctx->second, di, intermediate, custom_flags)) != BL_SUCCESS) {
     bl_pixel_converter_reset(&ctx->first);
     bl_pixel_converter_reset(&ctx->second);
     free(ctx);
-- 
2.43.0


From e9930a20e48c2b3a6042e9e89dfb47874ffd3968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 29/31] fix: assigning short text to a string that shares its
 data must not lose the new content

---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 416a6f6..6a08ed1 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From b879167f91c284580e40d32d919cbc5a03727165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:44 +0000
Subject: [PATCH 30/31] fix: gradient: make the accesses to the cached info of
 a possibly shared gradient atomic

Contexts that render with the same gradient at the same time all calculate and
store the same value, but plain loads and stores of it are a data race.
---
 blend2d/core/gradient.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 826f09f..be72f92 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -202,7 +202,7 @@ static BL_INLINE BLResult invalidate_lut_cache(BLGradientPrivateImpl* impl) noex
 BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
   BLGradientInfo info;
 
-  info.packed = impl->info32.packed;
+  info.packed = bl_atomic_fetch_relaxed(&impl->info32.packed);
 
   constexpr uint32_t FLAG_ALPHA_NOT_ONE  = 0x1; // Has alpha that is not 1.0.
   constexpr uint32_t FLAG_ALPHA_NOT_ZERO = 0x2; // Has alpha that is not 0.0.
@@ -278,8 +278,8 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
       info.format = uint8_t(flags & FLAG_ALPHA_NOT_ONE ? FormatExt::kPRGB32 : FormatExt::kFRGB32);
       info._lut_size = uint16_t(lut_size);
 
-      // Update the info. It doesn't have to be atomic.
-      impl->info32.packed = info.packed;
+      // Update the info. Every thread calculates the same value, so it's enough when the store itself is atomic.
+      bl_atomic_store_relaxed(&impl->info32.packed, info.packed);
     }
   }
 
@@ -377,7 +377,7 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   if (copy_cache) {
     new_impl->lut32 = copyMaybeNullLUT(other_impl->lut32);
     new_impl->lut64 = copyMaybeNullLUT(other_impl->lut64);
-    new_impl->info32.packed = other_impl->info32.packed;
+    new_impl->info32.packed = bl_atomic_fetch_relaxed(&other_impl->info32.packed);
   }
 
   return replace_instance(self, &newO);
-- 
2.43.0


From 46e471933c72d597db9d39c2cd5095bb927d2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:17 +0000
Subject: [PATCH 31/31] fix: gradient: acquire a lookup table published by
 another context before using it

The table is published by a compare-exchange, but was looked at by a plain load,
so a second context could use it before its content was visible.
---
 blend2d/core/gradient.cpp        | 16 ++++++++--------
 blend2d/raster/rastercontext.cpp |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index be72f92..250c371 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -287,7 +287,7 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
 }
 
 BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut32;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut32);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -312,7 +312,7 @@ BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noex
 }
 
 BLGradientLUT* ensure_lut64(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut64;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut64);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -375,8 +375,8 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   new_impl->size = copy_stops(new_impl->stops, other_impl->stops, other_impl->size);
 
   if (copy_cache) {
-    new_impl->lut32 = copyMaybeNullLUT(other_impl->lut32);
-    new_impl->lut64 = copyMaybeNullLUT(other_impl->lut64);
+    new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut32));
+    new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut64));
     new_impl->info32.packed = bl_atomic_fetch_relaxed(&other_impl->info32.packed);
   }
 
@@ -547,8 +547,8 @@ BL_API_IMPL BLResult bl_gradient_shrink(BLGradientCore* self) noexcept {
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
@@ -571,8 +571,8 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 02bcd1e..c4e9c30 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -463,7 +463,7 @@ static BL_INLINE bool init_non_solid_fetch_data(
         const void* lut_data = nullptr;
         uint32_t lut_size = gradient_info.lut_size(quality >= BL_GRADIENT_QUALITY_DITHER);
 
-        BLGradientLUT* lut = gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)];
+        BLGradientLUT* lut = bl_atomic_fetch_strong(&gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)]);
         if (lut)
           lut_data = lut->data();
 
-- 
2.43.0

