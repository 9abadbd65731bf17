From 0f220120d6fb1edf4dad40a2dac8bcfed42009c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 001/143] fix: recognise the RPCL progression order in the
 encoder

ProgressionOrder had no RPCL variant, so starting a compression with
OPJ_RPCL hit the Unknown assertion.
---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7fcf585..a845ef8 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -167,6 +167,7 @@ pub(crate) enum ProgressionOrder {
     CPRL,
     PCRL,
     RLCP,
+    RPCL,
     LRCP,
 }
 
@@ -176,6 +177,7 @@ impl ProgressionOrder {
             OPJ_CPRL => Self::CPRL,
             OPJ_PCRL => Self::PCRL,
             OPJ_RLCP => Self::RLCP,
+            OPJ_RPCL => Self::RPCL,
             OPJ_LRCP => Self::LRCP,
             _ => Self::Unknown,
         }
@@ -187,6 +189,7 @@ impl ProgressionOrder {
             Self::CPRL => &[Component, Precinct, Resolution, Layer],
             Self::PCRL => &[Precinct, Component, Resolution, Layer],
             Self::RLCP => &[Resolution, Layer, Component, Precinct],
+            Self::RPCL => &[Resolution, Precinct, Component, Layer],
             Self::LRCP => &[Layer, Resolution, Component, Precinct],
             Self::Unknown => &[],
         }
@@ -197,6 +200,7 @@ impl ProgressionOrder {
             Self::CPRL => "CPRL",
             Self::PCRL => "PCRL",
             Self::RLCP => "RLCP",
+            Self::RPCL => "RPCL",
             Self::LRCP => "LRCP",
             Self::Unknown => "",
         }
-- 
2.43.0


From a8db5432505ec7ca570d1b8bd2bb264ef11fd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 002/143] fix: record the progression level at which tile-parts
 are split

opj_j2k_get_num_tp never advanced the index it stored in m_tp_pos, so
every tile-part division behaved as if it were at the outermost level.
---
 openjp2-rs/src/j2k.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a845ef8..59f2f05 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -846,7 +846,6 @@ fn opj_j2k_get_num_tp(
     mut tileno: OPJ_UINT32,
 ) -> OPJ_UINT32 {
     unsafe {
-        let mut i: OPJ_INT32 = 0;
         let mut tpnum = 1 as OPJ_UINT32;
         let mut tcp = std::ptr::null_mut::<opj_tcp_t>();
         let mut l_current_poc = std::ptr::null_mut::<opj_poc_t>();
@@ -867,7 +866,7 @@ fn opj_j2k_get_num_tp(
         let prog = opj_j2k_convert_progression_order((*tcp).prg);
         assert!(prog != ProgressionOrder::Unknown);
         if (*cp).m_specific_param.m_enc.m_tp_on {
-            for step in prog.get_order() {
+            for (i, step) in prog.get_order().iter().enumerate() {
                 match step {
                     ProgressionStep::Component => {
                         // component wise
@@ -893,7 +892,7 @@ fn opj_j2k_get_num_tp(
                 }
                 // would we split here ?
                 if (*cp).m_specific_param.m_enc.m_tp_flag == *step as u8 {
-                    (*cp).m_specific_param.m_enc.m_tp_pos = i;
+                    (*cp).m_specific_param.m_enc.m_tp_pos = i as OPJ_INT32;
                     break;
                 }
             }
-- 
2.43.0


From 91b1b2f7be09aba7e3b0250399e6a2d4adaca40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 003/143] fix: sign-extend signed samples when copying tile
 data into the encoder

---
 openjp2-rs/src/tcd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 67d13cf..2cdc619 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2881,7 +2881,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
-                            *dest = *src as OPJ_INT32;
+                            *dest = *src as i8 as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
@@ -2894,7 +2894,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem * 2);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-                            *dest = u16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
+                            *dest = i16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-- 
2.43.0


From 48f01ff8aa2b80bc2757a60aa1d6673cd0f707bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 004/143] fix: encode tiles in which a subsampled component has
 no samples

Such tile-components are legal but made the encoder panic (empty chunk
size, null data, or an explicit panic when the whole tile was empty).
---
 openjp2-rs/src/j2k.rs | 23 +++++++++++++----------
 openjp2-rs/src/tcd.rs |  4 ++++
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 59f2f05..572567d 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12231,20 +12231,19 @@ pub(crate) fn opj_j2k_encode(
                     l_current_data = l_new_current_data;
                     l_max_tile_size = l_current_tile_size
                 }
-                if l_current_data.is_null() {
-                    // Should not happen in practice, but will avoid Coverity to
-                    // complain about a null pointer dereference
-                    panic!("");
-                    // C: assert(0);
-                }
                 // copy image data (32 bit) to l_current_data as contiguous, all-component, zero
                 // offset buffer
                 // 32 bit components @ 8 bit precision get converted to 8 bit
                 // 32 bit components @ 16 bit precision get converted to 16 bit
-                let p_data = std::slice::from_raw_parts_mut(
-                    l_current_data as *mut u8,
-                    l_current_tile_size as usize,
-                );
+                // (nothing was allocated when no component has a sample in this tile)
+                let p_data = if l_current_data.is_null() {
+                    &mut []
+                } else {
+                    std::slice::from_raw_parts_mut(
+                        l_current_data as *mut u8,
+                        l_current_tile_size as usize,
+                    )
+                };
                 opj_j2k_get_tile_data(&mut *p_j2k.m_tcd, p_data);
                 // now copy this data into the tile component
                 if opj_tcd_copy_tile_data(&mut *p_j2k.m_tcd, p_data) == 0 {
@@ -12441,6 +12440,10 @@ fn opj_j2k_get_tile_data(mut p_tcd: &mut opj_tcd_t, mut p_data: &mut [u8]) {
                 &mut l_stride,
                 &mut l_tile_offset,
             );
+            if l_width == 0 || l_height == 0 {
+                // this component has no sample in the tile
+                continue;
+            }
             let mut l_src_ptr = l_img_comp.data.offset(l_tile_offset as isize);
             let l_height = l_height as usize;
             let l_width = l_width as usize;
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 2cdc619..57a28d6 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2875,6 +2875,10 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
             if l_size_comp == 3u32 {
                 l_size_comp = 4 as OPJ_UINT32
             }
+            if l_nb_elem == 0 {
+                // this component has no sample in the tile
+                continue;
+            }
             let l_dest = std::slice::from_raw_parts_mut(l_tilec.data, l_nb_elem as usize);
             match l_size_comp {
                 1 => {
-- 
2.43.0


From 85732c2f94d62811cfc1d8f674819ca238a7e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 005/143] fix: use the component width as the row stride when
 tiling an image

The stride was derived from ceil((x1-x0)/dx), which is not the number of
columns of a subsampled component whose origin is not a multiple of dx.
---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 572567d..e985d47 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12400,7 +12400,7 @@ fn opj_get_tile_dimensions(
         *l_height = (l_tilec.y1 - l_tilec.y0) as OPJ_UINT32;
         *l_offset_x = opj_uint_ceildiv(l_image.x0, l_img_comp.dx);
         *l_offset_y = opj_uint_ceildiv(l_image.y0, l_img_comp.dy);
-        *l_image_width = opj_uint_ceildiv(l_image.x1 - l_image.x0, l_img_comp.dx);
+        *l_image_width = l_img_comp.w;
         *l_stride = (*l_image_width).wrapping_sub(*l_width);
         *l_tile_offset = (l_tilec.x0 as OPJ_UINT32)
             .wrapping_sub(*l_offset_x)
-- 
2.43.0


From 5c62e8a3d4b9fec7f57b2bd849df45908d787f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 006/143] fix: keep encoder precinct exponents within what the
 COD marker allows

A precinct size that is halved down to 1 gave exponent 0 above the lowest
resolution level (invalid, and a shift overflow in the tile coder), and
sizes above 32768 overflowed the four-bit field.
---
 openjp2-rs/src/j2k.rs | 57 +++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e985d47..7220cef 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6835,6 +6835,16 @@ fn opj_j2k_is_imf_compliant(
     }
 }
 
+/// Precinct size exponent (Table A.21) for a requested precinct size: 0 is only
+/// allowed at the lowest resolution level and the field has four bits.
+fn opj_j2k_precinct_exponent(size: OPJ_INT32, resno: OPJ_INT32) -> OPJ_UINT32 {
+    if size < 1i32 {
+        return 1;
+    }
+    let min_exponent = if resno == 0 { 0 } else { 1 };
+    opj_int_floorlog2(size).clamp(min_exponent, 15) as OPJ_UINT32
+}
+
 pub(crate) fn opj_j2k_setup_encoder(
     mut p_j2k: &mut opj_j2k,
     mut parameters: &mut opj_cparameters_t,
@@ -7556,44 +7566,23 @@ pub(crate) fn opj_j2k_setup_encoder(
                     assert!((*tccp_1).numresolutions > 0u32);
                     it_res = (*tccp_1).numresolutions as OPJ_INT32 - 1i32;
                     while it_res >= 0i32 {
-                        if p < parameters.res_spec {
-                            if parameters.prcw_init[p as usize] < 1i32 {
-                                (*tccp_1).prcw[it_res as usize] = 1 as OPJ_UINT32
-                            } else {
-                                (*tccp_1).prcw[it_res as usize] =
-                                    opj_int_floorlog2(parameters.prcw_init[p as usize])
-                                        as OPJ_UINT32
-                            }
-                            if parameters.prch_init[p as usize] < 1i32 {
-                                (*tccp_1).prch[it_res as usize] = 1 as OPJ_UINT32
-                            } else {
-                                (*tccp_1).prch[it_res as usize] =
-                                    opj_int_floorlog2(parameters.prch_init[p as usize])
-                                        as OPJ_UINT32
-                            }
+                        let (prcw, prch) = if p < parameters.res_spec {
+                            (
+                                parameters.prcw_init[p as usize],
+                                parameters.prch_init[p as usize],
+                            )
                         } else {
                             let mut res_spec = parameters.res_spec;
-                            let mut size_prcw = 0i32;
-                            let mut size_prch = 0i32;
                             // end for
                             assert!(res_spec > 0i32);
-                            size_prcw = parameters.prcw_init[(res_spec - 1i32) as usize]
-                                >> (p - (res_spec - 1i32));
-                            size_prch = parameters.prch_init[(res_spec - 1i32) as usize]
-                                >> (p - (res_spec - 1i32));
-                            if size_prcw < 1i32 {
-                                (*tccp_1).prcw[it_res as usize] = 1 as OPJ_UINT32
-                            } else {
-                                (*tccp_1).prcw[it_res as usize] =
-                                    opj_int_floorlog2(size_prcw) as OPJ_UINT32
-                            }
-                            if size_prch < 1i32 {
-                                (*tccp_1).prch[it_res as usize] = 1 as OPJ_UINT32
-                            } else {
-                                (*tccp_1).prch[it_res as usize] =
-                                    opj_int_floorlog2(size_prch) as OPJ_UINT32
-                            }
-                        }
+                            let shift = (p - (res_spec - 1i32)).min(31i32);
+                            (
+                                parameters.prcw_init[(res_spec - 1i32) as usize] >> shift,
+                                parameters.prch_init[(res_spec - 1i32) as usize] >> shift,
+                            )
+                        };
+                        (*tccp_1).prcw[it_res as usize] = opj_j2k_precinct_exponent(prcw, it_res);
+                        (*tccp_1).prch[it_res as usize] = opj_j2k_precinct_exponent(prch, it_res);
                         p += 1;
                         it_res -= 1
                         // printf("\nsize precinct for level %d : %d,%d\n",
-- 
2.43.0


From b79d7372ae55105d74185dd96f8262afd3b69f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 007/143] fix: start of the previous position when tile-parts
 are split by precinct

With a tile origin that is not a multiple of the precinct step the first
position of the tile was recomputed as one before the tile (or wrapped).
---
 openjp2-rs/src/pi.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index fef2c2b..012edc0 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -2561,15 +2561,15 @@ pub(crate) unsafe fn opj_pi_create_encode(
                             (*pi.offset(pino as isize)).poc.precno1 = (*tcp).prc_t
                         }
                         _ => {
-                            (*pi.offset(pino as isize)).poc.tx0 = (*tcp)
-                                .tx0_t
-                                .wrapping_sub((*tcp).dx)
-                                .wrapping_sub((*tcp).tx0_t.wrapping_rem((*tcp).dx));
+                            (*pi.offset(pino as isize)).poc.tx0 = opj_uint_max(
+                                (*tcp).tx0_t.wrapping_sub((*tcp).dx),
+                                (*tcp).txS,
+                            );
                             (*pi.offset(pino as isize)).poc.tx1 = (*tcp).tx0_t;
-                            (*pi.offset(pino as isize)).poc.ty0 = (*tcp)
-                                .ty0_t
-                                .wrapping_sub((*tcp).dy)
-                                .wrapping_sub((*tcp).ty0_t.wrapping_rem((*tcp).dy));
+                            (*pi.offset(pino as isize)).poc.ty0 = opj_uint_max(
+                                (*tcp).ty0_t.wrapping_sub((*tcp).dy),
+                                (*tcp).tyS,
+                            );
                             (*pi.offset(pino as isize)).poc.ty1 = (*tcp).ty0_t
                         }
                     },
-- 
2.43.0


From fb76509da0c626046b43df7bf28ab713faa7fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 008/143] fix: number of tile-parts per progression order
 change

Count with the order and the ranges of the progression change itself (the
upper bounds were used as counts), count positions rather than precincts
for the position-based orders, keep the split level in step with the
current change, and refuse more than 255 tile-parts (TNsot is a byte).
---
 openjp2-rs/src/j2k.rs | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7220cef..43e6c1e 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -863,30 +863,42 @@ fn opj_j2k_get_num_tp(
         l_current_poc = &mut *(*tcp).pocs.as_mut_ptr().offset(pino as isize) as *mut opj_poc_t;
         assert!(!l_current_poc.is_null());
         // get the progression order as a character string
-        let prog = opj_j2k_convert_progression_order((*tcp).prg);
+        let prog = opj_j2k_convert_progression_order((*l_current_poc).prg);
         assert!(prog != ProgressionOrder::Unknown);
         if (*cp).m_specific_param.m_enc.m_tp_on {
             for (i, step) in prog.get_order().iter().enumerate() {
                 match step {
                     ProgressionStep::Component => {
                         // component wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).compE)
-                            as OPJ_UINT32
+                        tpnum = tpnum
+                            .saturating_mul((*l_current_poc).compE.saturating_sub((*l_current_poc).compS))
                     }
                     ProgressionStep::Resolution => {
                         // resolution wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).resE)
-                            as OPJ_UINT32
+                        tpnum = tpnum
+                            .saturating_mul((*l_current_poc).resE.saturating_sub((*l_current_poc).resS))
                     }
                     ProgressionStep::Precinct => {
                         // precinct wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).prcE)
-                            as OPJ_UINT32
+                        tpnum = match prog {
+                            ProgressionOrder::LRCP | ProgressionOrder::RLCP => tpnum
+                                .saturating_mul((*l_current_poc).prcE.saturating_sub((*l_current_poc).prcS)),
+                            // the other orders step through positions
+                            _ => tpnum
+                                .saturating_mul(
+                                    opj_uint_ceildiv((*l_current_poc).txE, (*l_current_poc).dx)
+                                        - (*l_current_poc).txS / (*l_current_poc).dx,
+                                )
+                                .saturating_mul(
+                                    opj_uint_ceildiv((*l_current_poc).tyE, (*l_current_poc).dy)
+                                        - (*l_current_poc).tyS / (*l_current_poc).dy,
+                                ),
+                        }
                     }
                     ProgressionStep::Layer => {
                         // layer wise
-                        tpnum = (tpnum as core::ffi::c_uint).wrapping_mul((*l_current_poc).layE)
-                            as OPJ_UINT32
+                        tpnum = tpnum
+                            .saturating_mul((*l_current_poc).layE.saturating_sub((*l_current_poc).layS))
                     }
                     ProgressionStep::Unknown => {}
                 }
@@ -974,10 +986,15 @@ fn opj_j2k_calculate_tp(
       pino = 0 as OPJ_UINT32;
       while pino <= (*tcp).numpocs {
         let mut tp_num = opj_j2k_get_num_tp(cp, pino, tileno);
-        *p_nb_tiles = (*p_nb_tiles).wrapping_add(tp_num);
-        cur_totnum_tp = (cur_totnum_tp as core::ffi::c_uint).wrapping_add(tp_num) as OPJ_UINT32;
+        *p_nb_tiles = (*p_nb_tiles).saturating_add(tp_num);
+        cur_totnum_tp = cur_totnum_tp.saturating_add(tp_num);
         pino += 1;
       }
+      // TNsot is a single byte
+      if cur_totnum_tp > 255 {
+        event_msg!(_p_manager, EVT_ERROR, "Too many tile-parts in tile %d (%d > 255)\n", tileno, cur_totnum_tp);
+        return 0i32;
+      }
       (*tcp).m_nb_tile_parts = cur_totnum_tp;
       tcp = tcp.offset(1);
       tileno += 1;
@@ -12664,6 +12681,9 @@ fn opj_j2k_write_first_tile_part(
         l_tcd = p_j2k.m_tcd;
         l_cp = &mut p_j2k.m_cp;
         (*l_tcd).cur_pino = 0 as OPJ_UINT32;
+        // Set the level at which the tile-parts are split
+        opj_j2k_get_num_tp(l_cp, 0 as OPJ_UINT32, p_j2k.m_current_tile_number);
+        (*l_tcd).tp_pos = (*l_cp).m_specific_param.m_enc.m_tp_pos;
         // Get number of tile parts
         p_j2k
             .m_specific_param
@@ -12828,6 +12848,7 @@ fn opj_j2k_write_all_tile_parts(
             (*l_tcd).cur_pino = pino;
             // Get number of tile parts
             tot_num_tp = opj_j2k_get_num_tp(l_cp, pino, p_j2k.m_current_tile_number);
+            (*l_tcd).tp_pos = (*l_cp).m_specific_param.m_enc.m_tp_pos;
             tilepartno = 0 as OPJ_UINT32;
             while tilepartno < tot_num_tp {
                 p_j2k
-- 
2.43.0


From 39aa08527521091d550cf50b83c667eb9048aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 009/143] fix: skip empty resolution levels in the forward
 wavelet transform

With no rows or no columns the one-dimensional passes still touched the
first samples (corrupting the tile) or ran past the scratch buffer.
---
 openjp2-rs/src/dwt.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 04f524b..016c9cc 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1201,6 +1201,12 @@ unsafe fn opj_dwt_encode_procedure(
         let mut cas_row: OPJ_INT32 = 0;
         rw = ((*l_cur_res).x1 - (*l_cur_res).x0) as OPJ_UINT32;
         rh = ((*l_cur_res).y1 - (*l_cur_res).y0) as OPJ_UINT32;
+        if rw == 0 || rh == 0 {
+            // an empty resolution level has nothing to transform
+            l_cur_res = l_last_res;
+            l_last_res = l_last_res.offset(-1);
+            continue;
+        }
         cas_row = (*l_cur_res).x0 & 1i32;
         cas_col = (*l_cur_res).y0 & 1i32;
         // Perform vertical pass
-- 
2.43.0


From 79f93f7888044cf57dc322421ecc0f8e6521d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 010/143] fix: make the encoder's output buffer large enough
 for the packets of the tile

---
 openjp2-rs/src/j2k.rs | 37 +++++++++++++++++++++++++++++++++++++
 openjp2-rs/src/tcd.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 43e6c1e..dba640a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12529,6 +12529,40 @@ fn opj_j2k_get_tile_data(mut p_tcd: &mut opj_tcd_t, mut p_data: &mut [u8]) {
     }
 }
 
+/// Make the output buffer large enough for the current tile: the estimate made when the
+/// encoding starts knows neither the number of packets nor the number of code-blocks.
+fn opj_j2k_grow_encoded_tile_data(
+    p_j2k: &mut opj_j2k,
+    p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    unsafe {
+        let l_tile_size = opj_tcd_get_encoder_output_bound(&*p_j2k.m_tcd, p_j2k.m_current_tile_number)
+            // SOT, SOD and what opj_j2k_write_sod() keeps free, for each tile-part
+            + 255 * 18
+            + p_j2k.m_specific_param.m_encoder.m_reserved_bytes_for_PLT as u64
+            + opj_j2k_get_specific_header_sizes(p_j2k) as u64;
+        let l_tile_size = l_tile_size.min(u32::MAX as u64) as OPJ_UINT32;
+        if l_tile_size > p_j2k.m_specific_param.m_encoder.m_encoded_tile_size {
+            let l_new_data = opj_realloc(
+                p_j2k.m_specific_param.m_encoder.m_encoded_tile_data as *mut core::ffi::c_void,
+                l_tile_size as size_t,
+            ) as *mut OPJ_BYTE;
+            if l_new_data.is_null() {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Not enough memory to allocate m_encoded_tile_data. %u MB required\n",
+                    l_tile_size / 1024 / 1024,
+                );
+                return 0i32;
+            }
+            p_j2k.m_specific_param.m_encoder.m_encoded_tile_data = l_new_data;
+            p_j2k.m_specific_param.m_encoder.m_encoded_tile_size = l_tile_size;
+        }
+        1i32
+    }
+}
+
 fn opj_j2k_post_write_tile(
     mut p_j2k: &mut opj_j2k,
     mut p_stream: &mut Stream,
@@ -12545,6 +12579,9 @@ fn opj_j2k_post_write_tile(
             .m_encoder
             .m_encoded_tile_data
             .is_null());
+        if opj_j2k_grow_encoded_tile_data(p_j2k, p_manager) == 0 {
+            return 0i32;
+        }
         l_tile_size = p_j2k.m_specific_param.m_encoder.m_encoded_tile_size;
         l_available_data = l_tile_size;
         l_current_data = p_j2k.m_specific_param.m_encoder.m_encoded_tile_data;
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 57a28d6..06289d8 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2606,6 +2606,39 @@ unsafe fn opj_tcd_code_block_enc_deallocate(mut p_precinct: *mut opj_tcd_precinc
     };
 }
 
+/// Upper bound on the number of bytes taken by all the packets of the tile being encoded.
+pub(crate) unsafe fn opj_tcd_get_encoder_output_bound(p_tcd: &opj_tcd_t, tileno: u32) -> u64 {
+    let l_tile = &*(*p_tcd.tcd_image).tiles;
+    let numlayers = (*(*p_tcd.cp).tcps.add(tileno as usize)).numlayers as u64;
+    let mut l_bound = 0u64;
+    for compno in 0..l_tile.numcomps as usize {
+        let l_tilec = &*l_tile.comps.add(compno);
+        for resno in 0..l_tilec.numresolutions as usize {
+            let l_res = &*l_tilec.resolutions.add(resno);
+            let l_nb_precincts = l_res.pw as u64 * l_res.ph as u64;
+            // Per packet: SOP and EPH markers, the non-empty bit and its padding
+            l_bound += l_nb_precincts * numlayers * 10;
+            for bandno in 0..l_res.numbands as usize {
+                let l_band = &l_res.bands[bandno];
+                if opj_tcd_is_band_empty(l_band as *const _ as *mut _) != 0 {
+                    continue;
+                }
+                for precno in 0..l_nb_precincts as usize {
+                    let l_precinct = &*l_band.precincts.add(precno);
+                    let l_nb_code_blocks = l_precinct.cw as u64 * l_precinct.ch as u64;
+                    for cblkno in 0..l_nb_code_blocks as usize {
+                        // Code words, and the length of each of their segments
+                        l_bound += (*l_precinct.cblks.enc.add(cblkno)).data_size as u64 + 100 * 5;
+                    }
+                    // Inclusion and number of passes in each layer
+                    l_bound += l_nb_code_blocks * numlayers * 8;
+                }
+            }
+        }
+    }
+    l_bound
+}
+
 pub(crate) fn opj_tcd_get_encoder_input_buffer_size(mut p_tcd: &mut opj_tcd_t) -> OPJ_SIZE_T {
     let mut l_data_size = 0 as OPJ_SIZE_T;
     let mut l_size_comp: OPJ_UINT32 = 0;
-- 
2.43.0


From 166f3e2670e6b6bdbcb6dd05f26e48e88db448e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 011/143] fix: room in the code-block buffer for terminated
 coding passes

---
 openjp2-rs/src/tcd.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 06289d8..3bfddf2 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1329,7 +1329,7 @@ unsafe fn opj_tcd_init_tile(
                                     opj_int_min(cblkxend, (*l_current_precinct).x1);
                                 (*l_code_block).y1 =
                                     opj_int_min(cblkyend, (*l_current_precinct).y1);
-                                if opj_tcd_code_block_enc_allocate_data(l_code_block) == 0 {
+                                if opj_tcd_code_block_enc_allocate_data(l_code_block, (*l_tccp).cblksty) == 0 {
                                     return 0i32;
                                 }
                             } else {
@@ -1417,6 +1417,7 @@ unsafe fn opj_tcd_code_block_enc_allocate(mut p_code_block: *mut opj_tcd_cblk_en
 // Allocates data memory for an encoding code block.
 unsafe fn opj_tcd_code_block_enc_allocate_data(
     mut p_code_block: *mut opj_tcd_cblk_enc_t,
+    cblksty: OPJ_UINT32,
 ) -> OPJ_BOOL {
     let mut l_data_size: OPJ_UINT32 = 0;
     // +1 is needed for https://github.com/uclouvain/openjpeg/issues/835
@@ -1434,6 +1435,10 @@ unsafe fn opj_tcd_code_block_enc_allocate_data(
             * ((*p_code_block).y1 - (*p_code_block).y0)
             * core::mem::size_of::<OPJ_UINT32>() as OPJ_INT32) as OPJ_UINT32,
     );
+    // Terminating and marking coding passes costs a few bytes for each of them
+    if cblksty & !(J2K_CCP_CBLKSTY_RESET | J2K_CCP_CBLKSTY_VSC) != 0 {
+        l_data_size += 5 * 100;
+    }
     if l_data_size > (*p_code_block).data_size {
         if !(*p_code_block).data.is_null() {
             // We refer to data - 1 since below we incremented it
-- 
2.43.0


From f9e7478382035542821b3fc8a222ee084048442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:55 +0000
Subject: [PATCH 012/143] fix: no packets for precincts a resolution does not
 have when tile-parts are split

---
 openjp2-rs/src/pi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index 012edc0..dabb2a3 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -160,7 +160,8 @@ unsafe fn opj_pi_next_lrcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    if (*pi).precno < opj_uint_min((*pi).poc.precno1, (*res).pw.wrapping_mul((*res).ph))
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
@@ -272,7 +273,8 @@ unsafe fn opj_pi_next_rlcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    if (*pi).precno < opj_uint_min((*pi).poc.precno1, (*res).pw.wrapping_mul((*res).ph))
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
-- 
2.43.0


From 932b962420b1e757eae79e1b54aabfebad72d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 013/143] fix: decode tiles in which a subsampled component has
 no samples

---
 openjp2-rs/src/j2k.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index dba640a..e02717e 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9612,7 +9612,14 @@ fn opj_j2k_update_image_data(
                 src_data_stride = (*l_res_0).win_x1.wrapping_sub((*l_res_0).win_x0);
                 p_src_data = (*l_tilec).data_win
             }
-            if !p_src_data.is_null() {
+            // A tile may have no sample of a subsampled component: no packet tells then
+            // which resolution was decoded, and there is nothing to copy
+            let l_top_res = (*l_tilec)
+                .resolutions
+                .offset((*l_tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize);
+            let l_is_empty =
+                (*l_top_res).x0 >= (*l_top_res).x1 || (*l_top_res).y0 >= (*l_top_res).y1;
+            if !p_src_data.is_null() && !l_is_empty {
                 l_width_src = (res_x1 - res_x0) as OPJ_UINT32;
                 l_height_src = (res_y1 - res_y0) as OPJ_UINT32;
                 // Current tile component size
-- 
2.43.0


From 71708316317f740907ff04a15a3182d076563273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 014/143] fix: count the bypassed bit-planes from the
 region-of-interest shift when decoding

---
 openjp2-rs/src/t1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 79d3657..6b4975e 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2336,7 +2336,7 @@ fn opj_t1_decode_cblk(
             let mut seg: *mut opj_tcd_seg_t =
                 &mut *(*cblk).segs.offset(segno as isize) as *mut opj_tcd_seg_t;
             // BYPASS mode
-            type_0 = if bpno_plus_one <= (*cblk).numbps as OPJ_INT32 - 4i32
+            type_0 = if bpno_plus_one <= roishift.wrapping_add((*cblk).numbps) as OPJ_INT32 - 4i32
                 && passtype < 2
                 && cblksty & 0x1 != 0
             {
-- 
2.43.0


From 2efbf9aaaa59289f3b28335cf078045596521067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 015/143] fix: visit every precinct when component subsamplings
 do not divide each other

---
 openjp2-rs/src/pi.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index dabb2a3..3a4cc7d 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -105,6 +105,21 @@ unsafe fn opj_uint_ceildivpow2(mut a: OPJ_UINT32, mut b: OPJ_UINT32) -> OPJ_UINT
 // @{
 // * @name Local static functions
 // @{
+/// Step that visits the corners of the precincts of every component and resolution: precincts
+/// start at multiples of sizes which, with subsamplings such as 2 and 3, do not divide each other.
+fn opj_uint_gcd(mut a: OPJ_UINT32, mut b: OPJ_UINT32) -> OPJ_UINT32 {
+    while b != 0 {
+        (a, b) = (b, a % b);
+    }
+    a
+}
+fn opj_position_step(step: OPJ_UINT32, size: OPJ_UINT32) -> OPJ_UINT32 {
+    if step == 0x7FFFFFFF {
+        opj_uint_min(step, size)
+    } else {
+        opj_uint_gcd(step, size)
+    }
+}
 // *
 // Get next packet in layer-resolution-component-precinct order.
 // @param pi packet iterator to modify
@@ -399,7 +414,7 @@ unsafe fn opj_pi_next_rpcl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dx = if (*pi).dx == 0 {
                         dx
                     } else {
-                        opj_uint_min((*pi).dx, dx)
+                        opj_uint_gcd((*pi).dx, dx)
                     }
                 }
                 if (*res)
@@ -432,7 +447,7 @@ unsafe fn opj_pi_next_rpcl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dy = if (*pi).dy == 0 {
                         dy
                     } else {
-                        opj_uint_min((*pi).dy, dy)
+                        opj_uint_gcd((*pi).dy, dy)
                     }
                 }
                 resno += 1;
@@ -671,7 +686,7 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dx = if (*pi).dx == 0 {
                         dx
                     } else {
-                        opj_uint_min((*pi).dx, dx)
+                        opj_uint_gcd((*pi).dx, dx)
                     }
                 }
                 if (*res)
@@ -704,7 +719,7 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     (*pi).dy = if (*pi).dy == 0 {
                         dy
                     } else {
-                        opj_uint_min((*pi).dy, dy)
+                        opj_uint_gcd((*pi).dy, dy)
                     }
                 }
                 resno += 1;
@@ -969,7 +984,7 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         (*pi).dx = if (*pi).dx == 0 {
                             dx
                         } else {
-                            opj_uint_min((*pi).dx, dx)
+                            opj_uint_gcd((*pi).dx, dx)
                         }
                     }
                     if (*res)
@@ -1002,7 +1017,7 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         (*pi).dy = if (*pi).dy == 0 {
                             dy
                         } else {
-                            opj_uint_min((*pi).dy, dy)
+                            opj_uint_gcd((*pi).dy, dy)
                         }
                     }
                     resno += 1;
@@ -1278,10 +1293,10 @@ unsafe fn opj_get_encoding_parameters(
                 * ((1u64) << (l_pdy + (*l_tccp).numresolutions - 1u32 - resno));
             // take the minimum size for dx for each comp and resolution
             if l_dx < u32::MAX as u64 {
-                *p_dx_min = opj_uint_min(*p_dx_min, l_dx as u32);
+                *p_dx_min = opj_position_step(*p_dx_min, l_dx as u32);
             }
             if l_dy < u32::MAX as u64 {
-                *p_dy_min = opj_uint_min(*p_dy_min, l_dy as u32);
+                *p_dy_min = opj_position_step(*p_dy_min, l_dy as u32);
             }
             // various calculations of extents
             l_level_no = (*l_tccp)
@@ -1455,7 +1470,7 @@ unsafe fn opj_get_all_encoding_parameters(
                     .dx
                     .wrapping_mul((1u32) << l_pdx.wrapping_add(l_level_no));
                 // take the minimum size for l_dx for each comp and resolution
-                *p_dx_min = opj_uint_min(*p_dx_min, l_dx)
+                *p_dx_min = opj_position_step(*p_dx_min, l_dx)
             }
             if l_pdy.wrapping_add(l_level_no) < 32u32
                 && (*l_img_comp).dy
@@ -1467,7 +1482,7 @@ unsafe fn opj_get_all_encoding_parameters(
                 l_dy = (*l_img_comp)
                     .dy
                     .wrapping_mul((1u32) << l_pdy.wrapping_add(l_level_no));
-                *p_dy_min = opj_uint_min(*p_dy_min, l_dy)
+                *p_dy_min = opj_position_step(*p_dy_min, l_dy)
             }
             // various calculations of extents
             l_rx0 = opj_uint_ceildivpow2(l_tcx0, l_level_no);
-- 
2.43.0


From cdd73ab198a4a192de378c8a08910b8bd147c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 016/143] fix: copy the progression order changes of the tile
 they belong to

---
 openjp2-rs/src/j2k.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e02717e..7731368 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7393,20 +7393,20 @@ pub(crate) fn opj_j2k_setup_encoder(
                         let mut tcp_poc: *mut opj_poc_t =
                             &mut *(*tcp).pocs.as_mut_ptr().offset(numpocs_tile as isize)
                                 as *mut opj_poc_t;
-                        if parameters.POC[numpocs_tile as usize].compno0 >= image.numcomps {
+                        if parameters.POC[i as usize].compno0 >= image.numcomps {
                             event_msg!(p_manager, EVT_ERROR, "Invalid compno0 for POC %d\n", i,);
                             return 0i32;
                         }
-                        (*tcp_poc).resno0 = parameters.POC[numpocs_tile as usize].resno0;
-                        (*tcp_poc).compno0 = parameters.POC[numpocs_tile as usize].compno0;
-                        (*tcp_poc).layno1 = parameters.POC[numpocs_tile as usize].layno1;
-                        (*tcp_poc).resno1 = parameters.POC[numpocs_tile as usize].resno1;
+                        (*tcp_poc).resno0 = parameters.POC[i as usize].resno0;
+                        (*tcp_poc).compno0 = parameters.POC[i as usize].compno0;
+                        (*tcp_poc).layno1 = parameters.POC[i as usize].layno1;
+                        (*tcp_poc).resno1 = parameters.POC[i as usize].resno1;
                         (*tcp_poc).compno1 = opj_uint_min(
-                            parameters.POC[numpocs_tile as usize].compno1,
+                            parameters.POC[i as usize].compno1,
                             image.numcomps,
                         );
-                        (*tcp_poc).prg1 = parameters.POC[numpocs_tile as usize].prg1;
-                        (*tcp_poc).tile = parameters.POC[numpocs_tile as usize].tile;
+                        (*tcp_poc).prg1 = parameters.POC[i as usize].prg1;
+                        (*tcp_poc).tile = parameters.POC[i as usize].tile;
                         numpocs_tile += 1;
                     }
                     i += 1;
-- 
2.43.0


From f5dab74149eae707c109e741e2d2b0349e7dca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 017/143] fix: progression order changes which add quality
 layers

---
 openjp2-rs/src/pi.rs | 34 ++++++++++++++++++++++++++++------
 openjp2-rs/src/t2.rs |  3 +++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index 3a4cc7d..a750b45 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -1667,12 +1667,9 @@ unsafe fn opj_pi_update_encode_poc_and_final(
         (*l_current_poc).layE = (*l_current_poc).layno1;
         (*l_current_poc).prg = (*l_current_poc).prg1;
         (*l_current_poc).prcS = 0 as OPJ_UINT32;
-        // special treatment here different from the first element
-        (*l_current_poc).layS = if (*l_current_poc).layE > (*l_current_poc.offset(-1)).layE {
-            (*l_current_poc).layE
-        } else {
-            0u32
-        };
+        // the layer index always starts at zero for every progression, and the packets that
+        // earlier progressions hold are skipped (see opj_pi_skip_previous_pocs())
+        (*l_current_poc).layS = 0 as OPJ_UINT32;
         (*l_current_poc).prcE = p_max_prec;
         (*l_current_poc).txS = p_tx0;
         (*l_current_poc).txE = p_tx1;
@@ -2750,6 +2747,31 @@ pub(crate) unsafe fn opj_pi_create_encode(
         }
     };
 }
+/// Mark as already included the packets held by the progressions that come before `pino`.
+pub(crate) unsafe fn opj_pi_skip_previous_pocs(
+    pi: *mut opj_pi_iterator_t,
+    tcp: *const opj_tcp_t,
+    pino: OPJ_UINT32,
+) {
+    let step_p = (*pi).step_p as usize;
+    let include =
+        std::slice::from_raw_parts_mut((*pi).include, (*pi).include_size as usize);
+    for poc in &(&(*tcp).pocs)[..pino as usize] {
+        for layno in poc.layS..opj_uint_min(poc.layE, (*tcp).numlayers) {
+            for compno in poc.compS..poc.compE {
+                let numresolutions = (*(*pi).comps.add(compno as usize)).numresolutions;
+                for resno in poc.resS..opj_uint_min(poc.resE, numresolutions) {
+                    let first = layno as usize * (*pi).step_l as usize
+                        + resno as usize * (*pi).step_r as usize
+                        + compno as usize * (*pi).step_c as usize;
+                    for precno in poc.prcS..poc.prcE {
+                        include[first + precno as usize * step_p] = 1;
+                    }
+                }
+            }
+        }
+    }
+}
 #[no_mangle]
 pub(crate) unsafe fn opj_pi_destroy(
     mut p_pi: *mut opj_pi_iterator_t,
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 202c528..70b04c2 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -221,6 +221,9 @@ pub(crate) unsafe fn opj_t2_encode_packets(
         }
     } else {
         opj_pi_create_encode(l_pi, l_cp, p_tile_no, p_pino, p_tp_num, p_tp_pos, p_t2_mode);
+        if (*l_tcp).POC {
+            opj_pi_skip_previous_pocs(l_pi, l_tcp, p_pino);
+        }
         l_current_pi = &mut *l_pi.offset(p_pino as isize) as *mut opj_pi_iterator_t;
         if (*l_current_pi).poc.prg as core::ffi::c_int == OPJ_PROG_UNKNOWN as core::ffi::c_int {
             // TODO ADE : add an error
-- 
2.43.0


From 64a6f31c964f6987f5aa5c6108c8feb0af9f8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 018/143] fix: one more guard bit with the reversible component
 transform

---
 openjp2-rs/src/j2k.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7731368..a79899b 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7571,7 +7571,13 @@ pub(crate) fn opj_j2k_setup_encoder(
                 } else {
                     0i32
                 } as OPJ_UINT32;
-                (*tccp_1).numgbits = 2 as OPJ_UINT32;
+                // The reversible component transform widens the chrominance
+                // components by one bit, which takes one more guard bit
+                (*tccp_1).numgbits = if (*tcp).mct == 1 && (*tccp_1).qmfbid == 1 {
+                    3 as OPJ_UINT32
+                } else {
+                    2 as OPJ_UINT32
+                };
                 if i as OPJ_INT32 == parameters.roi_compno {
                     (*tccp_1).roishift = parameters.roi_shift
                 } else {
-- 
2.43.0


From f9c23f0f9199d9a75919c7ca2f8d5de23f4a3d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:15 +0000
Subject: [PATCH 019/143] fix: refuse code-blocks with more bit-planes than can
 be signalled

---
 openjp2-rs/src/t2.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 70b04c2..0e923fb 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -686,6 +686,17 @@ unsafe fn opj_t2_encode_packet(
                     cblk =
                         &mut *(*prc).cblks.enc.offset(cblkno as isize) as *mut opj_tcd_cblk_enc_t;
                     (*cblk).numpasses = 0 as OPJ_UINT32;
+                    // Such a code-block cannot be signalled in the packet header
+                    if (*cblk).numbps as OPJ_INT32 > (*band).numbps {
+                        event_msg!(
+                            p_manager,
+                            EVT_ERROR,
+                            "opj_t2_encode_packet(): a code-block has %u bit-planes, more than the %d of its band. More guard bits are needed.\n",
+                            (*cblk).numbps,
+                            (*band).numbps,
+                        );
+                        return 0i32;
+                    }
                     opj_tgt_setvalue(
                         (*prc).imsbtree,
                         cblkno,
-- 
2.43.0


From f294f77d16862f087b16a35577d8dfcd66106cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 020/143] fix: split the tile-parts of every progression order
 change by position

---
 openjp2-rs/src/pi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index a750b45..a79cc06 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -2352,6 +2352,7 @@ pub(crate) unsafe fn opj_pi_initialise_encode(
     l_current_pi = l_current_pi.offset(1);
     pino = 1 as OPJ_UINT32;
     while pino < l_bound {
+        (*l_current_pi).tp_on = (*l_pi).tp_on;
         l_current_comp = (*l_current_pi).comps;
         l_img_comp = (*p_image).comps;
         l_tccp = (*l_tcp).tccps;
-- 
2.43.0


From e8716649d22e33a6934791b545f70405b841f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 021/143] fix: one more guard bit for components of few bits in
 reversible coding

---
 openjp2-rs/src/j2k.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a79899b..29474e0 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7572,8 +7572,12 @@ pub(crate) fn opj_j2k_setup_encoder(
                     0i32
                 } as OPJ_UINT32;
                 // The reversible component transform widens the chrominance
-                // components by one bit, which takes one more guard bit
-                (*tccp_1).numgbits = if (*tcp).mct == 1 && (*tccp_1).qmfbid == 1 {
+                // components by one bit, and with few bits per sample the rounding of
+                // the reversible wavelet transform adds up to as much: both take one
+                // more guard bit
+                (*tccp_1).numgbits = if (*tccp_1).qmfbid == 1
+                    && ((*tcp).mct == 1 || (*image.comps.offset(i as isize)).prec < 4)
+                {
                     3 as OPJ_UINT32
                 } else {
                     2 as OPJ_UINT32
-- 
2.43.0


From 4d2230ca995a05a3ce076e7fea1abf1a304f14fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 022/143] fix: refuse coefficients with more bit-planes than
 the coder can hold

---
 openjp2-rs/src/t1.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 6b4975e..e6f4aa9 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2485,6 +2485,28 @@ fn opj_t1_cblk_encode_processor(mut user_data: *mut core::ffi::c_void) {
                     .wrapping_mul(tile_w as usize)
                     .wrapping_add(x as OPJ_SIZE_T),
             ) as *mut OPJ_INT32;
+            // The coefficients are coded as 31 bit magnitudes with 6 fractional bits.
+            // Refuse those which do not fit rather than coding something else.
+            let scale = if (*tccp).qmfbid == 1 {
+                1.0
+            } else {
+                (*band).stepsize as OPJ_FLOAT64
+            };
+            for j in 0..cblk_h as usize {
+                for i in 0..cblk_w as usize {
+                    let p = tiledp.add(j * tile_w as usize + i);
+                    let coefficient = if (*tccp).qmfbid == 1 {
+                        *p as OPJ_FLOAT64
+                    } else {
+                        *(p as *const OPJ_FLOAT32) as OPJ_FLOAT64
+                    };
+                    if !((coefficient / scale).abs() < ((1i32) << (31i32 - 6i32)) as OPJ_FLOAT64) {
+                        core::ptr::write_volatile((*job).pret, 0i32);
+                        opj_free(job as *mut core::ffi::c_void);
+                        return;
+                    }
+                }
+            }
             if (*tccp).qmfbid == 1 {
                 let mut tiledp_u = tiledp as *mut OPJ_UINT32;
                 let mut t1data = t1.data.as_mut_ptr() as *mut OPJ_UINT32;
-- 
2.43.0


From 5f00390f323c28ac93641f4c422cbfb34e480f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 023/143] fix: refuse samples which overflow in the reversible
 transforms

---
 openjp2-rs/src/tcd.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 3bfddf2..e3e909a 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2694,7 +2694,12 @@ unsafe fn opj_tcd_dc_level_shift_encode(mut p_tcd: *mut opj_tcd_t) -> OPJ_BOOL {
         if (*l_tccp).qmfbid == 1u32 {
             i = 0 as OPJ_SIZE_T;
             while i < l_nb_elem {
-                *l_current_ptr -= (*l_tccp).m_dc_level_shift;
+                // The reversible transforms add up to 4 bits to the samples. Refuse
+                // those for which this would not fit in 32 bits.
+                match (*l_current_ptr).checked_sub((*l_tccp).m_dc_level_shift) {
+                    Some(v) if v.unsigned_abs() < (1u32) << 27i32 => *l_current_ptr = v,
+                    _ => return 0i32,
+                }
                 l_current_ptr = l_current_ptr.offset(1);
                 i += 1;
             }
-- 
2.43.0


From addc6466aca98434551e2df0696202fe5b5117ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:18 +0000
Subject: [PATCH 024/143] fix: refuse precisions whose dynamic range cannot be
 signalled

---
 openjp2-rs/src/j2k.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 29474e0..5388e66 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7624,6 +7624,20 @@ pub(crate) fn opj_j2k_setup_encoder(
                     }
                 }
                 opj_dwt_calc_explicit_stepsizes(tccp_1, (*image.comps.offset(i as isize)).prec);
+                let numbands = 3 * (*tccp_1).numresolutions as usize - 2;
+                if (&(*tccp_1).stepsizes)[..numbands]
+                    .iter()
+                    .any(|stepsize| !(0..=31).contains(&stepsize.expn))
+                {
+                    event_msg!(
+                        p_manager,
+                        EVT_ERROR,
+                        "Component %d: the dynamic range of a precision of %d cannot be signalled\n",
+                        i,
+                        (*image.comps.offset(i as isize)).prec,
+                    );
+                    return 0i32;
+                }
                 i += 1;
             }
             tileno += 1;
-- 
2.43.0


From e62a03e27b2b187b7706f3953c657092eb8891e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:24 +0000
Subject: [PATCH 025/143] hook: expose the image request decoder under --cfg
 verif_hooks

---
 src/http.rs | 5 +++++
 src/lib.rs  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/http.rs b/src/http.rs
index 70d55f7..bed1f71 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -147,6 +147,11 @@ fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
         .unwrap()
 }
 
+#[cfg(verif_hooks)]
+pub fn verif_decode(path: &str) -> Result<ImageRequest, String> {
+    decode_image_request(path).map_err(|e| e.to_string())
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index c2c0ad2..fa54fac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,6 +7,12 @@ mod http;
 mod iiif;
 mod resolve;
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::http::verif_decode;
+    pub use crate::iiif::*;
+}
+
 // TODO: split this sample code into http.
 mod hyper_compat {
     use std::marker::PhantomData;
-- 
2.43.0


From ee17fcd8076ffe2a64a1433b2e422e847464fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 026/143] fix: skip the leading slash of image request paths in
 release builds

---
 src/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index bed1f71..f4500ac 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -55,7 +55,8 @@ async fn image_request(
 
 fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     let mut segments = path.split('/');
-    debug_assert!(segments.next().is_some_and(|s| s.is_empty()));
+    let root = segments.next();
+    debug_assert!(root.is_some_and(|s| s.is_empty()));
 
     let identifier = segments
         .next()
-- 
2.43.0


From c75a14e00bd0cbd61438caa44220448ff4568d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 027/143] fix: refuse region percentages which are not finite

---
 src/iiif/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index ce16b44..ad4c9b2 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -58,7 +58,7 @@ trait SpatialSelector: Copy + Default + FromStr + ToString {
 impl SpatialSelector for f32 {
     fn validate(value: Self, index: usize) -> Result<Self, ParseError> {
         // Image API 3.0, s 4.1: region parameters in percentages ... must be positive
-        if value > 0.0 {
+        if value > 0.0 && value.is_finite() {
             Ok(value)
         } else {
             Err(ParseError::RegionPercentageOutOfBounds { input: value.to_string(), index })
-- 
2.43.0


From 20302590ff71cd56775f89ff7a9511c3d7189b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 028/143] fix: refuse upscaling percentages which are not
 finite

---
 src/iiif/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index ad4c9b2..41409e1 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -142,7 +142,7 @@ fn parse_scale_percent(s: &str, upscale: bool) -> Result<Size, ParseError> {
 
     // Image API 3.0, s 4: Size ... parameters in percentages ... must be positive
     // Image API 3.0, s 4.2: n must not be greater than 100 [unless explicitly upscaling].
-    if scale > 0.0 && (scale <= 100.0 || upscale) {
+    if scale > 0.0 && scale.is_finite() && (scale <= 100.0 || upscale) {
         Ok(Size { upscale, scale: Scale::Percentage(scale) })
     } else {
         Err(ParseError::SizePercentageOutOfBounds(s.into()))
-- 
2.43.0


From aedd2a9e568780da4d25851f19b364cd9606583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:57 +0000
Subject: [PATCH 029/143] fix: answer info.json requests instead of panicking

---
 src/http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index f4500ac..185ac5f 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -138,7 +138,11 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    unimplemented!()
+    // TODO
+    Ok(Response::builder()
+        .status(StatusCode::NOT_IMPLEMENTED)
+        .body(ResponseBody::new("not implemented"))
+        .unwrap())
 }
 
 fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
-- 
2.43.0


From c1288cf657d1a18644cb66d4155edca997e346d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:40 +0000
Subject: [PATCH 030/143] fix: quote region selectors as they were received

---
 src/iiif/parse.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/iiif/parse.rs b/src/iiif/parse.rs
index 41409e1..a2555bc 100644
--- a/src/iiif/parse.rs
+++ b/src/iiif/parse.rs
@@ -42,7 +42,7 @@ fn parse_region_selectors<T: SpatialSelector>(
         *item = s
             .parse::<T>()
             .map_err(|_| ParseError::region_unparsable(s, index))
-            .and_then(|value| T::validate(value, index))?;
+            .and_then(|value| T::validate(value, s, index))?;
     }
 
     match split.next() {
@@ -51,28 +51,28 @@ fn parse_region_selectors<T: SpatialSelector>(
     }
 }
 
-trait SpatialSelector: Copy + Default + FromStr + ToString {
-    fn validate(value: Self, index: usize) -> Result<Self, ParseError>;
+trait SpatialSelector: Copy + Default + FromStr {
+    fn validate(value: Self, input: &str, index: usize) -> Result<Self, ParseError>;
 }
 
 impl SpatialSelector for f32 {
-    fn validate(value: Self, index: usize) -> Result<Self, ParseError> {
+    fn validate(value: Self, input: &str, index: usize) -> Result<Self, ParseError> {
         // Image API 3.0, s 4.1: region parameters in percentages ... must be positive
         if value > 0.0 && value.is_finite() {
             Ok(value)
         } else {
-            Err(ParseError::RegionPercentageOutOfBounds { input: value.to_string(), index })
+            Err(ParseError::RegionPercentageOutOfBounds { input: input.into(), index })
         }
     }
 }
 
 impl SpatialSelector for u32 {
-    fn validate(value: Self, index: usize) -> Result<Self, ParseError> {
+    fn validate(value: Self, input: &str, index: usize) -> Result<Self, ParseError> {
         // Image API 3.0, s 4.1: If the requested region’s height or width is zero, [fail].
         if index <= 1 /* x or y */ || value > 0 {
             Ok(value)
         } else {
-            Err(ParseError::RegionSelectorOutOfBounds { input: value.to_string(), index })
+            Err(ParseError::RegionSelectorOutOfBounds { input: input.into(), index })
         }
     }
 }
-- 
2.43.0


From 6ac19202c1243114c9235bcefbe83e29f4a7c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:36 +0000
Subject: [PATCH 031/143] fix: keep identifiers inside the image directory

---
 src/resolve.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 3bd408a..fb486bb 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,6 @@
 use std::fmt::Debug;
-use std::path::Path;
+use std::io;
+use std::path::{Component, Path};
 
 use glommio::io::{ImmutableFile, ImmutableFileBuilder};
 // TODO move to more appropriate module
@@ -15,6 +16,14 @@ impl DiskImageSource {
     }
 
     pub async fn resolve(&self, ident: &str) -> glommio::Result<ImmutableFile, ()> {
+        // Identifiers are untrusted: they must not lead out of the image directory.
+        let contained = Path::new(ident)
+            .components()
+            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir));
+        if !contained {
+            return Err(io::Error::from(io::ErrorKind::PermissionDenied).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
-- 
2.43.0


From 7333e0988423e58ba3ff95f34c65488c13fe4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:36 +0000
Subject: [PATCH 032/143] fix: refuse identifiers which contain NUL

---
 src/resolve.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index fb486bb..f1f82ae 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -24,6 +24,11 @@ impl DiskImageSource {
             return Err(io::Error::from(io::ErrorKind::PermissionDenied).into());
         }
 
+        // No file name contains NUL (and glommio panics when it is asked to open one).
+        if ident.contains('\0') {
+            return Err(io::Error::from(io::ErrorKind::InvalidInput).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
-- 
2.43.0


From a35eb8695e05a3220dc2a2a57256adb069abc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 033/143] fix: keep accepting connections after one could not
 be accepted

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fa54fac..df34c7b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,7 @@ mod hyper_compat {
     use std::pin::Pin;
     use std::rc::Rc;
     use std::task::{Context, Poll};
+    use std::time::Duration;
     use std::{io, slice};
 
     use futures_lite::{AsyncRead, AsyncWrite, Future};
@@ -30,6 +31,9 @@ mod hyper_compat {
     use hyper::service::Service;
     use hyper::{Error, Request, Response};
     use hyper_util::server::conn::auto::Builder as ServerBuilder;
+    use tracing::warn;
+
+    const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(10);
 
     #[derive(Clone)]
     struct HyperExecutor;
@@ -125,11 +129,13 @@ mod hyper_compat {
         let conn_control = Rc::new(Semaphore::new(max_connections as _));
         loop {
             match listener.accept().await {
+                // One connection which cannot be accepted (it is already gone, or there are too many
+                // open files at the moment) is no reason to stop serving the others.
                 Err(x) => {
-                    return Err(x.into());
+                    warn!("failed to accept a connection: {x}");
+                    glommio::timer::sleep(ACCEPT_RETRY_DELAY).await;
                 }
                 Ok(stream) => {
-                    stream.local_addr()?;
                     let io = HyperStream(stream);
 
                     glommio::spawn_local(enclose! { (service, conn_control) async move {
-- 
2.43.0


From 8724cdfec07d69f5213d49e3eccc2ec155cc2812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:03 +0000
Subject: [PATCH 034/143] fix: no content in replies to HEAD requests

---
 src/http.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 185ac5f..5348e38 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -27,9 +27,10 @@ pub async fn handle_request(
     match (req.method(), req.uri().path()) {
         (&Method::GET, p) if p.ends_with("info.json") => info_request(p),
         (&Method::GET, p) if p.starts_with(PREFIX) => image_request(p, images).await,
-        _ => Ok(Response::builder()
+        (method, _) => Ok(Response::builder()
             .status(StatusCode::NOT_FOUND)
-            .body(ResponseBody::new("notfound"))
+            // hyper does not remove the content of replies to HEAD requests in HTTP/2
+            .body(ResponseBody::new(if method == Method::HEAD { "" } else { "notfound" }))
             .unwrap()),
     }
 }
-- 
2.43.0


From 52876432788c2762c6fe488b845a95ba96ac915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 035/143] fix: initialise the working buffer when decoding a
 region reversibly

---
 openjp2-rs/src/dwt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 016c9cc..19a5afa 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1846,6 +1846,9 @@ unsafe fn opj_dwt_decode_partial_tile(
         opj_sparse_array_int32_free(sa);
         return 0i32;
     }
+    // Samples next to the window are read (and their results discarded)
+    // although nothing was written there
+    core::ptr::write_bytes(h.mem as *mut u8, 0, h_mem_size);
     v.mem = h.mem;
     resno = 1 as OPJ_UINT32;
     while resno < numres {
-- 
2.43.0


From f8b39aaa9592b5d37af4a54926baea21219670af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 036/143] fix: no inverse transform of tile components without
 rows

---
 openjp2-rs/src/dwt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 19a5afa..c5e8677 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1467,9 +1467,13 @@ unsafe fn opj_dwt_decode_tile(
     .x0) as OPJ_UINT32;
     let mut h_mem_size: OPJ_SIZE_T = 0;
 
+    let tr_last = (*tilec)
+        .resolutions
+        .offset((*tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize);
+
     // Not entirely sure for the return code of w == 0 which is triggered per
     // https://github.com/uclouvain/openjpeg/issues/1505
-    if numres == 1 || w == 0 {
+    if numres == 1 || w == 0 || (*tr_last).y1 == (*tr_last).y0 {
         return 1i32;
     }
     h_mem_size = opj_dwt_max_resolution(tr, numres) as OPJ_SIZE_T;
-- 
2.43.0


From f64178a01aba9394031672189bb468d6ab912cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 037/143] fix: decode enough around a region for the
 irreversible transform

---
 openjp2-rs/src/dwt.rs |  3 +--
 openjp2-rs/src/tcd.rs | 13 +++++--------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index c5e8677..033102d 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -2660,8 +2660,7 @@ unsafe fn opj_dwt_decode_partial_97(
     };
     let mut resno: OPJ_UINT32 = 0;
     // This value matches the maximum left/right extension given in tables
-    // F.2 and F.3 of the standard. Note: in opj_tcd_is_subband_area_of_interest()
-    // we currently use 3.
+    // F.2 and F.3 of the standard, as in opj_tcd_is_subband_area_of_interest()
     let filter_width = 4u32; // width of the resolution level computed
     let mut tr = (*tilec).resolutions; // height of the resolution level computed
     let mut tr_max: *mut opj_tcd_resolution_t = &mut *(*tilec)
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index e3e909a..3cbd6b0 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2980,18 +2980,15 @@ pub(crate) unsafe fn opj_tcd_is_subband_area_of_interest(
     mut band_x1: OPJ_UINT32,
     mut band_y1: OPJ_UINT32,
 ) -> OPJ_BOOL {
-    // Note: those values for filter_margin are in part the result of
-    // experimentation. The value 2 for QMFBID=1 (5x3 filter) can be linked
-    // to the maximum left/right extension given in tables F.2 and F.3 of the
-    // standard. The value 3 for QMFBID=0 (9x7 filter) is more suspicious,
-    // since F.2 and F.3 would lead to 4 instead, so the current 3 might be
-    // needed to be bumped to 4, in case inconsistencies are found while
-    // decoding parts of irreversible coded images.
+    // Those values for filter_margin can be linked to the maximum left/right
+    // extension given in tables F.2 and F.3 of the standard: over all levels
+    // of the inverse transform, 2 for QMFBID=1 (5x3 filter) and 4 for
+    // QMFBID=0 (9x7 filter).
     // See opj_dwt_decode_partial_53 and opj_dwt_decode_partial_97 as well
     let mut filter_margin = if (*(*(*tcd).tcp).tccps.offset(compno as isize)).qmfbid == 1u32 {
         2i32
     } else {
-        3i32
+        4i32
     } as OPJ_UINT32;
     let mut tilec: *mut opj_tcd_tilecomp_t =
         &mut *(*(*(*tcd).tcd_image).tiles).comps.offset(compno as isize) as *mut opj_tcd_tilecomp_t;
-- 
2.43.0


From d8cd933b9a2a60efb4e8e6344cbd22dab0cd6649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 038/143] fix: read raw tile data of tiles in which a component
 has no samples

---
 openjp2-rs/src/tcd.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 3cbd6b0..f24375a 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1545,7 +1545,8 @@ pub(crate) unsafe fn opj_tcd_get_decoded_tile_size(
             w = ((*l_res).x1 - (*l_res).x0) as OPJ_UINT32;
             h = ((*l_res).y1 - (*l_res).y0) as OPJ_UINT32
         }
-        if h > 0u32
+        if w > 0u32
+            && h > 0u32
             && (2147483647u32)
                 .wrapping_mul(2u32)
                 .wrapping_add(1u32)
@@ -1978,6 +1979,10 @@ pub(crate) fn opj_tcd_update_tile_data(p_tcd: &mut opj_tcd_t, mut p_dest: &mut [
                 l_size_comp = 4 as OPJ_UINT32
             }
             let l_nb_elem = l_height * l_width;
+            if l_nb_elem == 0 {
+                // this component has no sample in the tile
+                continue;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_data, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From e7f5ea58e632e59e7dfb07a6a416a141d2589448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 039/143] fix: keep the data read before the end of a stream

---
 openjp2-rs/src/stream.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 042b02d..f46c7e8 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -343,25 +343,26 @@ impl Stream {
 
     pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len();
-        match self.m_inner.read_exact(buf) {
-            Ok(_) => {
-                self.m_byte_offset += len as i64;
-                Ok(len)
-            }
-            Err(_err) => {
-                // Maybe EOF, do a partial read.
-                match self.m_inner.read(buf) {
-                    Ok(nb) => {
-                        self.m_byte_offset += nb as i64;
-                        Ok(nb)
-                    }
-                    Err(err) => {
-                        log::trace!("Failed to read from stream: {err}");
-                        Err(err)
+        let mut nb = 0;
+        while nb < len {
+            match self.m_inner.read(&mut buf[nb..]) {
+                Ok(0) => break,
+                Ok(n) => {
+                    nb += n;
+                    self.m_byte_offset += n as i64;
+                }
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+                Err(err) => {
+                    log::trace!("Failed to read from stream: {err}");
+                    if nb == 0 {
+                        return Err(err);
                     }
+                    // Keep what has been read before the end of the stream.
+                    break;
                 }
             }
         }
+        Ok(nb)
     }
 
     pub fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-- 
2.43.0


From 75443dcdd505fa087b9b3375189624358313b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 040/143] fix: seek with the seek function of a stream, not by
 skipping

---
 openjp2-rs/src/stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index f46c7e8..a4c5b92 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -434,7 +434,11 @@ impl Stream {
     }
 
     pub fn seek(&mut self, offset: i64) -> std::io::Result<()> {
-        let res = self.m_inner.seek_relative(offset - self.m_byte_offset);
+        if offset < 0 {
+            log::trace!("Can't seek to offset < 0: {offset}");
+            return Err(std::io::Error::other(format!("Can't seek to offset < 0: {offset}")));
+        }
+        let res = self.m_inner.seek(SeekFrom::Start(offset as u64));
         match res {
             Ok(_) => {
                 self.m_byte_offset = offset;
-- 
2.43.0


From db5fc1c2f42fb0d74027be297b394989651b9fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 041/143] fix: go on skipping when a skip function skips less
 than asked for

---
 openjp2-rs/src/stream.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index a4c5b92..7acca52 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -167,17 +167,20 @@ impl Seek for CustomStream {
                 }
             }
             SeekFrom::Current(offset) => {
-                let res = if let Some(skip) = &self.m_skip_fn {
-                    unsafe { skip(offset, self.m_user_data) }
-                } else {
+                let Some(skip) = &self.m_skip_fn else {
                     return Err(IoError::other("Custom stream doesn't have a skip function"));
                 };
-                if res != -1 {
-                    self.m_byte_offset += offset;
-                    Ok(self.m_byte_offset as u64)
-                } else {
-                    Err(IoError::other("skip failed"))
+                let mut left = offset;
+                while left != 0 {
+                    // the function may skip less than asked for
+                    let res = unsafe { skip(left, self.m_user_data) };
+                    if res == 0 || res == -1 && left != -1 || res.signum() != left.signum() {
+                        return Err(IoError::other("skip failed"));
+                    }
+                    self.m_byte_offset += res;
+                    left -= res;
                 }
+                Ok(self.m_byte_offset as u64)
             }
             SeekFrom::End(_offset) => Err(IoError::other("Unsupported seek from end")),
         }
-- 
2.43.0


From 17a722678a9a8b4e8ee819c027879203907fb497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 042/143] fix: create file streams, not results of creating
 them

---
 openjp2-rs/src/openjpeg.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bffa9b8..1210ae7 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -668,9 +668,13 @@ pub unsafe fn opj_stream_create_file_stream(
     }
     match std::ffi::CStr::from_ptr(fname).to_str() {
         Ok(name) => {
-            let l_stream =
-                Box::new(opj_stream_private::new_file(name, p_size, p_is_read_stream != 0));
-            Box::into_raw(l_stream) as *mut opj_stream_t
+            match opj_stream_private::new_file(name, p_size, p_is_read_stream != 0) {
+                Ok(stream) => Box::into_raw(Box::new(stream)) as *mut opj_stream_t,
+                Err(err) => {
+                    log::error!("Failed to open {name}: {err}");
+                    std::ptr::null_mut::<opj_stream_t>()
+                }
+            }
         }
         Err(err) => {
             log::error!("Failed to convert C filename to Rust String: {err}");
-- 
2.43.0


From a7f71bb634a28cc22337826cd867c02427762524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:31 +0000
Subject: [PATCH 043/143] fix: no panic when a stream is longer than its
 announced length

---
 openjp2-rs/src/stream.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 7acca52..ef0e8b5 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -395,10 +395,9 @@ impl Stream {
 
     pub fn get_bytes_left(&self) -> i64 {
         log::trace!("-- byte_left(), offset={}", self.m_byte_offset);
-        assert!(self.m_byte_offset >= 0i64);
-        assert!(self.m_stream_length >= self.m_byte_offset as OPJ_UINT64);
         let nb = if self.m_stream_length != 0 {
-            (self.m_stream_length as OPJ_OFF_T) - self.m_byte_offset
+            // there may be more data than the user announced
+            ((self.m_stream_length as OPJ_OFF_T).saturating_sub(self.m_byte_offset)).max(0)
         } else {
             0i64
         };
-- 
2.43.0


From db02d3540defc5cc9c220bda13938ae2fe1da7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:17 +0000
Subject: [PATCH 044/143] fix: count no tile data when none could be read

---
 openjp2-rs/src/j2k.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5388e66..ed1c931 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4424,7 +4424,11 @@ fn opj_j2k_read_sod(
                 (*l_current_data).offset(*l_tile_len as isize),
                 p_j2k.m_specific_param.m_decoder.m_sot_length as OPJ_SIZE_T,
                 p_manager,
-            )
+            );
+            if l_current_read_size == usize::MAX {
+                // there was nothing left to read
+                l_current_read_size = 0 as OPJ_SIZE_T
+            }
         } else {
             l_current_read_size = 0 as OPJ_SIZE_T
         }
-- 
2.43.0


From a56fe4c1ec85aa6317ed97770f6e77bad18a89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:17 +0000
Subject: [PATCH 045/143] fix: no length below zero for a last tile-part at the
 end of the stream

---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index ed1c931..9890b15 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4286,7 +4286,7 @@ fn opj_j2k_read_sod(
       // so its result will fit on OPJ_UINT32 unless we find
       // a file with a single tile part of more than 4 GB...*/
       p_j2k.m_specific_param.m_decoder.m_sot_length =
-        (opj_stream_get_number_byte_left(p_stream) - 2i64) as OPJ_UINT32
+        (opj_stream_get_number_byte_left(p_stream) - 2i64).max(0) as OPJ_UINT32
     } else if p_j2k.m_specific_param.m_decoder.m_sot_length >= 2u32 {
       p_j2k.m_specific_param.m_decoder.m_sot_length = (p_j2k.m_specific_param.m_decoder.m_sot_length
         as core::ffi::c_uint)
-- 
2.43.0


From 4294dc8215df3d674a9f84a7988fdb6e2475dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 046/143] fix: destroying no codestream information or index
 does nothing

---
 openjp2-rs/src/openjpeg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index 1210ae7..bb1d58a 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -504,7 +504,7 @@ pub unsafe fn opj_get_cstr_info(mut p_codec: *mut opj_codec_t) -> *mut opj_codes
 
 #[no_mangle]
 pub unsafe fn opj_destroy_cstr_info(mut cstr_info: *mut *mut opj_codestream_info_v2_t) {
-    if !cstr_info.is_null() {
+    if !cstr_info.is_null() && !(*cstr_info).is_null() {
         // TODO: use drop.
         if !(**cstr_info).m_default_tile_info.tccp_info.is_null() {
             opj_free((**cstr_info).m_default_tile_info.tccp_info as *mut core::ffi::c_void);
@@ -528,7 +528,7 @@ pub unsafe fn opj_get_cstr_index(mut p_codec: *mut opj_codec_t) -> *mut opj_code
 
 #[no_mangle]
 pub unsafe fn opj_destroy_cstr_index(mut p_cstr_index: *mut *mut opj_codestream_index_t) {
-    if !(*p_cstr_index).is_null() {
+    if !p_cstr_index.is_null() && !(*p_cstr_index).is_null() {
         // TODO: use drop.
         j2k_destroy_cstr_index(*p_cstr_index);
         *p_cstr_index = std::ptr::null_mut::<opj_codestream_index_t>()
-- 
2.43.0


From 85de18fd844a07146783ee3e11abbe1072cf107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 047/143] fix: free the ICC profile an image has when it is
 given another

---
 openjp2-rs/src/image.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 266db7d..826586d 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -291,6 +291,7 @@ impl opj_image {
     }
 
     fn alloc_icc_profile(&mut self, len: u32) -> bool {
+        self.clear_icc_profile();
         unsafe {
             self.icc_profile_buf = opj_malloc(len as size_t) as *mut OPJ_BYTE;
             if self.icc_profile_buf.is_null() {
-- 
2.43.0


From f1440add23a8444b7b2200eba4b010b657784274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 048/143] fix: no slice of components from a null pointer

---
 openjp2-rs/src/openjpeg.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bb1d58a..c2373b0 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -172,7 +172,13 @@ pub unsafe fn opj_set_decoded_components(
         return 0i32;
     }
     let l_codec = &mut *(p_codec as *mut opj_codec_private_t);
-    let components = unsafe { core::slice::from_raw_parts(comps_indices, numcomps as usize) };
+    let components = if numcomps == 0 {
+        &[]
+    } else if comps_indices.is_null() {
+        return 0i32;
+    } else {
+        unsafe { core::slice::from_raw_parts(comps_indices, numcomps as usize) }
+    };
     l_codec.set_decoded_components(components, apply_color_transforms)
 }
 
-- 
2.43.0


From bda58ff1d538f818d5e9eae7aba02f84b47e27ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 049/143] fix: codestream information and index of codecs which
 have none, or no entries yet

---
 openjp2-rs/src/j2k.rs | 193 ++++++++++++------------------------------
 1 file changed, 52 insertions(+), 141 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 9890b15..1b2ce87 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11253,6 +11253,10 @@ pub(crate) fn j2k_dump_image_comp_header(
 
 pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_info_v2_t {
     unsafe {
+        // only a decoder which has begun to read a header knows anything
+        if p_j2k.m_is_decoder == 0 || p_j2k.m_private_image.is_null() {
+            return std::ptr::null_mut::<opj_codestream_info_v2_t>();
+        }
         let mut compno: OPJ_UINT32 = 0;
         let mut numcomps = (*p_j2k.m_private_image).numcomps;
         let mut l_default_tile = std::ptr::null_mut::<opj_tcp_t>();
@@ -11338,159 +11342,66 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
     }
 }
 
+/// Copies `num` elements, of which there may be none. `None` when there is no memory for them.
+unsafe fn opj_j2k_copy_elements<T: Copy>(src: *const T, num: OPJ_UINT32) -> Option<*mut T> {
+    if src.is_null() || num == 0 {
+        return Some(std::ptr::null_mut::<T>());
+    }
+    let dest = opj_calloc(num as size_t, core::mem::size_of::<T>()) as *mut T;
+    if dest.is_null() {
+        return None;
+    }
+    std::ptr::copy_nonoverlapping(src, dest, num as usize);
+    Some(dest)
+}
+
 pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_index_t {
     unsafe {
+        // an encoder has no index
+        if p_j2k.cstr_index.is_null() {
+            return std::ptr::null_mut::<opj_codestream_index_t>();
+        }
+        let src = &*p_j2k.cstr_index;
         let mut l_cstr_index =
             opj_calloc(1i32 as size_t, core::mem::size_of::<opj_codestream_index_t>())
                 as *mut opj_codestream_index_t;
         if l_cstr_index.is_null() {
             return std::ptr::null_mut::<opj_codestream_index_t>();
         }
-        (*l_cstr_index).main_head_start = (*p_j2k.cstr_index).main_head_start;
-        (*l_cstr_index).main_head_end = (*p_j2k.cstr_index).main_head_end;
-        (*l_cstr_index).codestream_size = (*p_j2k.cstr_index).codestream_size;
-        (*l_cstr_index).marknum = (*p_j2k.cstr_index).marknum;
-        (*l_cstr_index).marker = opj_malloc(
-            ((*l_cstr_index).marknum as usize)
-                .wrapping_mul(core::mem::size_of::<opj_marker_info_t>()),
-        ) as *mut opj_marker_info_t;
-        if (*l_cstr_index).marker.is_null() {
-            opj_free(l_cstr_index as *mut core::ffi::c_void);
-            return std::ptr::null_mut::<opj_codestream_index_t>();
-        }
-        if !(*p_j2k.cstr_index).marker.is_null() {
-            memcpy(
-                (*l_cstr_index).marker as *mut core::ffi::c_void,
-                (*p_j2k.cstr_index).marker as *const core::ffi::c_void,
-                ((*l_cstr_index).marknum as usize)
-                    .wrapping_mul(core::mem::size_of::<opj_marker_info_t>()),
-            );
-        } else {
-            opj_free((*l_cstr_index).marker as *mut core::ffi::c_void);
-            (*l_cstr_index).marker = std::ptr::null_mut::<opj_marker_info_t>()
-        }
-        (*l_cstr_index).nb_of_tiles = (*p_j2k.cstr_index).nb_of_tiles;
-        (*l_cstr_index).tile_index = opj_calloc(
-            (*l_cstr_index).nb_of_tiles as size_t,
-            core::mem::size_of::<opj_tile_index_t>(),
-        ) as *mut opj_tile_index_t;
-        if (*l_cstr_index).tile_index.is_null() {
-            opj_free((*l_cstr_index).marker as *mut core::ffi::c_void);
-            opj_free(l_cstr_index as *mut core::ffi::c_void);
-            return std::ptr::null_mut::<opj_codestream_index_t>();
-        }
-        if (*p_j2k.cstr_index).tile_index.is_null() {
-            opj_free((*l_cstr_index).tile_index as *mut core::ffi::c_void);
-            (*l_cstr_index).tile_index = std::ptr::null_mut::<opj_tile_index_t>()
-        } else {
-            let mut it_tile = 0 as OPJ_UINT32;
-            it_tile = 0 as OPJ_UINT32;
-            while it_tile < (*l_cstr_index).nb_of_tiles {
+        let dest = &mut *l_cstr_index;
+        dest.main_head_start = src.main_head_start;
+        dest.main_head_end = src.main_head_end;
+        dest.codestream_size = src.codestream_size;
+        dest.marknum = src.marknum;
+        dest.nb_of_tiles = src.nb_of_tiles;
+        let copied = (|| {
+            dest.marker = opj_j2k_copy_elements(src.marker, src.marknum)?;
+            if src.tile_index.is_null() {
+                return Some(());
+            }
+            dest.tile_index = opj_calloc(
+                src.nb_of_tiles as size_t,
+                core::mem::size_of::<opj_tile_index_t>(),
+            ) as *mut opj_tile_index_t;
+            if dest.tile_index.is_null() {
+                return None;
+            }
+            for it_tile in 0..src.nb_of_tiles as usize {
+                let src = &*src.tile_index.add(it_tile);
+                let dest = &mut *dest.tile_index.add(it_tile);
                 // Tile Marker
-                (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum =
-                    (*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize)).marknum;
-                let fresh34 = &mut (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marker;
-                *fresh34 = opj_malloc(
-                    ((*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum as usize)
-                        .wrapping_mul(core::mem::size_of::<opj_marker_info_t>()),
-                ) as *mut opj_marker_info_t;
-                if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
-                    .marker
-                    .is_null()
-                {
-                    let mut it_tile_free: OPJ_UINT32 = 0;
-                    it_tile_free = 0 as OPJ_UINT32;
-                    while it_tile_free < it_tile {
-                        opj_free(
-                            (*(*l_cstr_index).tile_index.offset(it_tile_free as isize)).marker
-                                as *mut core::ffi::c_void,
-                        );
-                        it_tile_free += 1;
-                    }
-                    opj_free((*l_cstr_index).tile_index as *mut core::ffi::c_void);
-                    opj_free((*l_cstr_index).marker as *mut core::ffi::c_void);
-                    opj_free(l_cstr_index as *mut core::ffi::c_void);
-                    return std::ptr::null_mut::<opj_codestream_index_t>();
-                }
-                if !(*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize))
-                    .marker
-                    .is_null()
-                {
-                    memcpy(
-                        (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marker
-                            as *mut core::ffi::c_void,
-                        (*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize)).marker
-                            as *const core::ffi::c_void,
-                        ((*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum as usize)
-                            .wrapping_mul(core::mem::size_of::<opj_marker_info_t>()),
-                    );
-                } else {
-                    opj_free(
-                        (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marker
-                            as *mut core::ffi::c_void,
-                    );
-                    let fresh35 =
-                        &mut (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marker;
-                    *fresh35 = std::ptr::null_mut::<opj_marker_info_t>()
-                }
+                dest.marknum = src.marknum;
+                dest.marker = opj_j2k_copy_elements(src.marker, src.marknum)?;
                 // Tile part index
-                (*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_tps =
-                    (*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize)).nb_tps;
-                let fresh36 = &mut (*(*l_cstr_index).tile_index.offset(it_tile as isize)).tp_index;
-                *fresh36 = opj_malloc(
-                    ((*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_tps as usize)
-                        .wrapping_mul(core::mem::size_of::<opj_tp_index_t>()),
-                ) as *mut opj_tp_index_t;
-                if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
-                    .tp_index
-                    .is_null()
-                {
-                    let mut it_tile_free_0: OPJ_UINT32 = 0;
-                    it_tile_free_0 = 0 as OPJ_UINT32;
-                    while it_tile_free_0 < it_tile {
-                        opj_free(
-                            (*(*l_cstr_index).tile_index.offset(it_tile_free_0 as isize)).marker
-                                as *mut core::ffi::c_void,
-                        );
-                        opj_free(
-                            (*(*l_cstr_index).tile_index.offset(it_tile_free_0 as isize)).tp_index
-                                as *mut core::ffi::c_void,
-                        );
-                        it_tile_free_0 += 1;
-                    }
-                    opj_free((*l_cstr_index).tile_index as *mut core::ffi::c_void);
-                    opj_free((*l_cstr_index).marker as *mut core::ffi::c_void);
-                    opj_free(l_cstr_index as *mut core::ffi::c_void);
-                    return std::ptr::null_mut::<opj_codestream_index_t>();
-                }
-                if !(*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize))
-                    .tp_index
-                    .is_null()
-                {
-                    memcpy(
-                        (*(*l_cstr_index).tile_index.offset(it_tile as isize)).tp_index
-                            as *mut core::ffi::c_void,
-                        (*(*p_j2k.cstr_index).tile_index.offset(it_tile as isize)).tp_index
-                            as *const core::ffi::c_void,
-                        ((*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_tps as usize)
-                            .wrapping_mul(core::mem::size_of::<opj_tp_index_t>()),
-                    );
-                } else {
-                    opj_free(
-                        (*(*l_cstr_index).tile_index.offset(it_tile as isize)).tp_index
-                            as *mut core::ffi::c_void,
-                    );
-                    let fresh37 =
-                        &mut (*(*l_cstr_index).tile_index.offset(it_tile as isize)).tp_index;
-                    *fresh37 = std::ptr::null_mut::<opj_tp_index_t>()
-                }
+                dest.nb_tps = src.nb_tps;
+                dest.tp_index = opj_j2k_copy_elements(src.tp_index, src.nb_tps)?;
                 // Packet index (NOT USED)
-                (*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_packet = 0 as OPJ_UINT32;
-                let fresh38 =
-                    &mut (*(*l_cstr_index).tile_index.offset(it_tile as isize)).packet_index;
-                *fresh38 = std::ptr::null_mut::<opj_packet_info_t>();
-                it_tile += 1;
             }
+            Some(())
+        })();
+        if copied.is_none() {
+            j2k_destroy_cstr_index(l_cstr_index);
+            return std::ptr::null_mut::<opj_codestream_index_t>();
         }
         l_cstr_index
     }
-- 
2.43.0


From 0a8f4685c08a9f8c455e68a57369cd5082793a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 050/143] fix: dump no decoder state of encoders

---
 openjp2-rs/src/j2k.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 1b2ce87..4d45782 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11014,6 +11014,10 @@ pub(crate) fn j2k_dump(mut p_j2k: &mut opj_j2k, mut flag: OPJ_INT32, mut out_str
             fprintf!(out_stream, "Wrong flag\n",);
             return;
         }
+        // an encoder has no header, tile information or index of its own to show
+        if p_j2k.m_is_decoder == 0 {
+            return;
+        }
         // Dump the image_header
         if flag & 1i32 != 0 && !p_j2k.m_private_image.is_null() {
             j2k_dump_image_header(&mut *p_j2k.m_private_image, 0i32, out_stream);
@@ -11027,7 +11031,7 @@ pub(crate) fn j2k_dump(mut p_j2k: &mut opj_j2k, mut flag: OPJ_INT32, mut out_str
             let mut l_nb_tiles = p_j2k.m_cp.th.wrapping_mul(p_j2k.m_cp.tw);
             let mut i: OPJ_UINT32 = 0;
             let mut l_tcp = p_j2k.m_cp.tcps;
-            if !p_j2k.m_private_image.is_null() {
+            if !p_j2k.m_private_image.is_null() && !l_tcp.is_null() {
                 i = 0 as OPJ_UINT32;
                 while i < l_nb_tiles {
                     opj_j2k_dump_tile_info(
-- 
2.43.0


From 88edcbbcf9a552a712f1fb43fe7804decd14061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 051/143] fix: write the ICC profile of the image

---
 openjp2-rs/src/jp2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 16319a2..641b81c 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1239,10 +1239,16 @@ pub(crate) fn opj_jp2_setup_encoder(
     }
 
     // Colour Specification box
-    if image.icc_profile_len != 0 {
+    jp2.color.icc_profile = image
+        .icc_profile()
+        .filter(|profile| !profile.is_empty())
+        .map(Vec::from);
+    if let Some(profile) = &jp2.color.icc_profile {
+        jp2.color.icc_profile_len = profile.len() as OPJ_UINT32;
         jp2.meth = 2 as OPJ_UINT32;
         jp2.enumcs = 0 as OPJ_UINT32
     } else {
+        jp2.color.icc_profile_len = 0 as OPJ_UINT32;
         jp2.meth = 1 as OPJ_UINT32;
         if image.color_space as core::ffi::c_int == 1 {
             jp2.enumcs = 16 as OPJ_UINT32
-- 
2.43.0


From 5dfd3afb40defa1fa1b6797fb9e9004939c67ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 052/143] fix: refuse to decode before a header was read or
 after decoding failed

---
 openjp2-rs/src/codec.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index 6e68959..caaaeab 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -158,6 +158,28 @@ impl Codec {
     }
 }
 
+impl CodecFormat {
+    fn j2k(&self) -> &opj_j2k {
+        match self {
+            CodecFormat::J2K(j2k) => j2k,
+            CodecFormat::JP2(jp2) => &jp2.j2k,
+        }
+    }
+
+    /// Was the main header read, without any decoding failing since?
+    fn has_header(&self, p_manager: &mut opj_event_mgr) -> bool {
+        let has_header = !self.j2k().m_private_image.is_null();
+        if !has_header {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "The codec has no image: opj_read_header has to succeed first.\n",
+            );
+        }
+        has_header
+    }
+}
+
 // Decoder
 impl Codec {
     pub fn setup_decoder(&mut self, mut parameters: &mut opj_dparameters_t) -> OPJ_BOOL {
@@ -271,6 +293,9 @@ impl Codec {
         match &mut self.m_codec {
             CodecType::Encoder(_) => (),
             CodecType::Decoder(dec) => {
+                if !dec.has_header(&mut self.m_event_mgr) {
+                    return 0i32;
+                }
                 return match dec {
                     CodecFormat::J2K(dec) => {
                         opj_j2k_decode(dec, p_stream, p_image, &mut self.m_event_mgr)
@@ -312,6 +337,9 @@ impl Codec {
         match &mut self.m_codec {
             CodecType::Encoder(_) => (),
             CodecType::Decoder(dec) => {
+                if !dec.has_header(&mut self.m_event_mgr) {
+                    return 0i32;
+                }
                 return match dec {
                     CodecFormat::J2K(dec) => opj_j2k_set_decode_area(
                         dec,
@@ -345,6 +373,9 @@ impl Codec {
         match &mut self.m_codec {
             CodecType::Encoder(_) => (),
             CodecType::Decoder(dec) => {
+                if !dec.has_header(&mut self.m_event_mgr) {
+                    return false;
+                }
                 return match dec {
                     CodecFormat::J2K(dec) => {
                         opj_j2k_read_tile_header(dec, p_stream, tile_info, &mut self.m_event_mgr)
@@ -367,6 +398,9 @@ impl Codec {
         match &mut self.m_codec {
             CodecType::Encoder(_) => (),
             CodecType::Decoder(dec) => {
+                if !dec.has_header(&mut self.m_event_mgr) {
+                    return 0i32;
+                }
                 return match dec {
                     CodecFormat::J2K(dec) => opj_j2k_decode_tile(
                         dec,
@@ -397,6 +431,9 @@ impl Codec {
         match &mut self.m_codec {
             CodecType::Encoder(_) => (),
             CodecType::Decoder(dec) => {
+                if !dec.has_header(&mut self.m_event_mgr) {
+                    return 0;
+                }
                 return match dec {
                     CodecFormat::J2K(dec) => {
                         opj_j2k_get_tile(dec, p_stream, p_image, &mut self.m_event_mgr, tile_index)
-- 
2.43.0


From 4ef2329b80d57e818476de155358fb52032b2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 053/143] fix: read one header with a decoder, and set it up
 before

---
 openjp2-rs/src/codec.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index caaaeab..c721990 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -166,6 +166,11 @@ impl CodecFormat {
         }
     }
 
+    /// Was reading a header tried?
+    fn is_decoding(&self) -> bool {
+        unsafe { self.j2k().m_specific_param.m_decoder.m_state != J2KState::NONE }
+    }
+
     /// Was the main header read, without any decoding failing since?
     fn has_header(&self, p_manager: &mut opj_event_mgr) -> bool {
         let has_header = !self.j2k().m_private_image.is_null();
@@ -192,6 +197,14 @@ impl Codec {
         );
             }
             CodecType::Decoder(dec) => {
+                if dec.is_decoding() {
+                    event_msg!(
+                        &mut self.m_event_mgr,
+                        EVT_ERROR,
+                        "opj_setup_decoder has to be called before opj_read_header.\n",
+                    );
+                    return 0i32;
+                }
                 match dec {
                     CodecFormat::J2K(dec) => {
                         opj_j2k_setup_decoder(dec, parameters);
@@ -242,6 +255,14 @@ impl Codec {
         );
             }
             CodecType::Decoder(dec) => {
+                if dec.is_decoding() {
+                    event_msg!(
+                        &mut self.m_event_mgr,
+                        EVT_ERROR,
+                        "The codec has read a header already.\n",
+                    );
+                    return 0i32;
+                }
                 return match dec {
                     CodecFormat::J2K(dec) => unsafe {
                         opj_j2k_read_header(p_stream, dec, p_image, &mut self.m_event_mgr)
-- 
2.43.0


From 1c1305ef42b07cd255c708db76d85770102236ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 054/143] fix: decode only into an image which has the
 components of the codestream

---
 openjp2-rs/src/j2k.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 4d45782..fcc2885 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11851,6 +11851,14 @@ pub(crate) fn opj_j2k_decode(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
+        if p_image.numcomps != (*p_j2k.m_private_image).numcomps {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Image has another number of components than codestream.\n",
+            );
+            return 0i32;
+        }
         // Heuristics to detect sequence opj_read_header(), opj_set_decoded_resolution_factor()
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
-- 
2.43.0


From ade254e94b06bee2efefe56416a95df558935057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 055/143] fix: a refused resolution factor changes nothing

---
 openjp2-rs/src/j2k.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index fcc2885..d3e89dc 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12039,7 +12039,6 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
 ) -> OPJ_BOOL {
     unsafe {
         let mut it_comp: OPJ_UINT32 = 0;
-        p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
         if !p_j2k.m_private_image.is_null()
             && !(*p_j2k.m_private_image).comps.is_null()
             && !p_j2k.m_specific_param.m_decoder.m_default_tcp.is_null()
@@ -12061,6 +12060,11 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
           );
                     return 0i32;
                 }
+                it_comp += 1;
+            }
+            p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
+            it_comp = 0 as OPJ_UINT32;
+            while it_comp < (*p_j2k.m_private_image).numcomps {
                 (*(*p_j2k.m_private_image).comps.offset(it_comp as isize)).factor = res_factor;
                 it_comp += 1;
             }
-- 
2.43.0


From a1dd6c72304077b86b57950ff744e87db840a1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 056/143] fix: setting up an encoder again starts afresh

---
 openjp2-rs/src/codec.rs | 42 +++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index c721990..6ef585c 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -483,25 +483,43 @@ impl Codec {
 
 // Encoder
 impl Codec {
+    /// Forget what an earlier set-up or encoding left, as if the encoder was new.
+    fn reset_encoder(&mut self) -> bool {
+        if let CodecType::Encoder(enc) = &mut self.m_codec {
+            let fresh = match enc {
+                CodecFormat::J2K(_) => opj_j2k_create_compress().map(CodecFormat::J2K),
+                CodecFormat::JP2(_) => opj_jp2_create(0i32).map(CodecFormat::JP2),
+            };
+            match fresh {
+                Some(fresh) => *enc = fresh,
+                None => return false,
+            }
+        }
+        true
+    }
+
     pub fn setup_encoder(
         &mut self,
         mut parameters: &mut opj_cparameters_t,
         mut p_image: &mut opj_image,
     ) -> OPJ_BOOL {
-        match &mut self.m_codec {
-            CodecType::Encoder(enc) => {
-                return match enc {
-                    CodecFormat::J2K(enc) => {
-                        opj_j2k_setup_encoder(enc, parameters, p_image, &mut self.m_event_mgr)
-                    }
-                    CodecFormat::JP2(enc) => {
-                        opj_jp2_setup_encoder(enc, parameters, p_image, &mut self.m_event_mgr)
-                    }
-                };
+        if !self.reset_encoder() {
+            return 0i32;
+        }
+        let ret = match &mut self.m_codec {
+            CodecType::Encoder(CodecFormat::J2K(enc)) => {
+                opj_j2k_setup_encoder(enc, parameters, p_image, &mut self.m_event_mgr)
             }
-            CodecType::Decoder(_) => (),
+            CodecType::Encoder(CodecFormat::JP2(enc)) => {
+                opj_jp2_setup_encoder(enc, parameters, p_image, &mut self.m_event_mgr)
+            }
+            CodecType::Decoder(_) => 0i32,
+        };
+        if ret == 0 {
+            // do not start compressing with half a set-up
+            self.reset_encoder();
         }
-        0i32
+        ret
     }
 
     pub fn encoder_set_extra_options(&mut self, options: &[&str]) -> bool {
-- 
2.43.0


From aa84648e45faa583a903e8de53b6c99e9c8445ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 057/143] fix: encode only after set-up and start, the image
 which was set up

---
 openjp2-rs/src/codec.rs | 76 +++++++++++++++++++++++++++++++++++------
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index 6ef585c..19feea3 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -481,6 +481,51 @@ impl Codec {
     }
 }
 
+impl CodecFormat {
+    /// Is the encoder set up for this image and not started yet?
+    fn can_start(&self, p_image: &opj_image, p_manager: &mut opj_event_mgr) -> bool {
+        let j2k = self.j2k();
+        if j2k.m_cp.tcps.is_null() || !j2k.m_private_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_setup_encoder has to be called before opj_start_compress.\n",
+            );
+            return false;
+        }
+        let cp = &j2k.m_cp;
+        let x1 = cp.tx0 as u64 + cp.tw as u64 * cp.tdx as u64;
+        let y1 = cp.ty0 as u64 + cp.th as u64 * cp.tdy as u64;
+        if p_image.numcomps != unsafe { j2k.m_specific_param.m_encoder.m_nb_comps }
+            || p_image.x0 < cp.tx0
+            || p_image.y0 < cp.ty0
+            || p_image.x1 as u64 > x1
+            || p_image.y1 as u64 > y1
+        {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "This is not the image which the encoder was set up for.\n",
+            );
+            return false;
+        }
+        true
+    }
+
+    /// Was compressing started?
+    fn is_started(&self, p_manager: &mut opj_event_mgr) -> bool {
+        let started = !self.j2k().m_tcd.is_null();
+        if !started {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "opj_start_compress has to succeed before anything can be encoded.\n",
+            );
+        }
+        started
+    }
+}
+
 // Encoder
 impl Codec {
     /// Forget what an earlier set-up or encoding left, as if the encoder was new.
@@ -543,22 +588,31 @@ impl Codec {
     ) -> OPJ_BOOL {
         match &mut self.m_codec {
             CodecType::Encoder(enc) => {
-                return match enc {
-                    CodecFormat::J2K(enc) => {
-                        opj_j2k_start_compress(enc, p_stream, p_image, &mut self.m_event_mgr)
-                    }
-                    CodecFormat::JP2(enc) => {
-                        opj_jp2_start_compress(enc, p_stream, p_image, &mut self.m_event_mgr)
-                    }
-                };
+                if !enc.can_start(p_image, &mut self.m_event_mgr) {
+                    return 0i32;
+                }
             }
-            CodecType::Decoder(_) => (),
+            CodecType::Decoder(_) => return 0i32,
         }
-        0i32
+        let ret = match &mut self.m_codec {
+            CodecType::Encoder(CodecFormat::J2K(enc)) => {
+                opj_j2k_start_compress(enc, p_stream, p_image, &mut self.m_event_mgr)
+            }
+            CodecType::Encoder(CodecFormat::JP2(enc)) => {
+                opj_jp2_start_compress(enc, p_stream, p_image, &mut self.m_event_mgr)
+            }
+            CodecType::Decoder(_) => 0i32,
+        };
+        if ret == 0 {
+            // nothing can be encoded after half a header
+            self.reset_encoder();
+        }
+        ret
     }
 
     pub fn encode(&mut self, mut p_stream: &mut Stream) -> OPJ_BOOL {
         match &mut self.m_codec {
+            CodecType::Encoder(enc) if !enc.is_started(&mut self.m_event_mgr) => (),
             CodecType::Encoder(enc) => {
                 return match enc {
                     CodecFormat::J2K(enc) => opj_j2k_encode(enc, p_stream, &mut self.m_event_mgr),
@@ -572,6 +626,7 @@ impl Codec {
 
     pub fn end_compress(&mut self, mut p_stream: &mut Stream) -> OPJ_BOOL {
         match &mut self.m_codec {
+            CodecType::Encoder(enc) if !enc.is_started(&mut self.m_event_mgr) => (),
             CodecType::Encoder(enc) => {
                 return match enc {
                     CodecFormat::J2K(enc) => {
@@ -594,6 +649,7 @@ impl Codec {
         p_stream: &mut Stream,
     ) -> OPJ_BOOL {
         match &mut self.m_codec {
+            CodecType::Encoder(enc) if !enc.is_started(&mut self.m_event_mgr) => 0i32,
             CodecType::Encoder(enc) => match enc {
                 CodecFormat::J2K(enc) => {
                     opj_j2k_write_tile(enc, p_tile_index, p_data, p_stream, &mut self.m_event_mgr)
-- 
2.43.0


From cd3a3c4d0dc403c9ddc2b52a69e1e9b26f56b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:59 +0000
Subject: [PATCH 058/143] fix: refuse more tiles than the image has

---
 openjp2-rs/src/j2k.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d3e89dc..81cb424 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12314,7 +12314,9 @@ fn opj_j2k_pre_write_tile(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        if p_tile_index != p_j2k.m_current_tile_number {
+        if p_tile_index != p_j2k.m_current_tile_number
+            || p_tile_index >= p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th)
+        {
             event_msg!(p_manager, EVT_ERROR, "The given tile index does not match.",);
             return 0i32;
         }
-- 
2.43.0


From 259c9833cae0fbddf7a281de50480b0ef28f1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 059/143] fix: a copied image has its own samples

---
 openjp2-rs/src/image.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 826586d..a8cd641 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -172,6 +172,16 @@ impl Clone for opj_image {
             if let Some(dest) = image.comps_mut() {
                 for (dest, src) in dest.iter_mut().zip(comps) {
                     *dest = *src;
+                    // each image frees its samples
+                    dest.data = std::ptr::null_mut();
+                    if let Some(samples) = src.data() {
+                        if !dest.alloc_data() {
+                            continue;
+                        }
+                        if let Some(data) = dest.data_mut() {
+                            data.copy_from_slice(samples);
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 7b75a86318d4c5e3b581eaffb33eda97e5b2a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 060/143] fix: encode whole images only from components which
 have all their samples

---
 openjp2-rs/src/j2k.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 81cb424..06b7a66 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12156,6 +12156,29 @@ pub(crate) fn opj_j2k_encode(
         if l_nb_tiles == 1u32 {
             l_reuse_data = 1i32
         }
+        let l_image = &*p_j2k.m_private_image;
+        for l_img_comp in l_image.comps().unwrap_or_default() {
+            let l_width = opj_uint_ceildiv(l_image.x1, l_img_comp.dx)
+                .saturating_sub(opj_uint_ceildiv(l_image.x0, l_img_comp.dx));
+            let l_height = opj_uint_ceildiv(l_image.y1, l_img_comp.dy)
+                .saturating_sub(opj_uint_ceildiv(l_image.y0, l_img_comp.dy));
+            if l_width != 0
+                && l_height != 0
+                && (l_img_comp.data.is_null()
+                    || l_img_comp.w < l_width
+                    || l_img_comp.h < l_height)
+            {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "An image component has less samples than the image area.\n"
+                );
+                return 0i32;
+            }
+            if l_img_comp.w != l_width {
+                l_reuse_data = 0i32
+            }
+        }
         i = 0 as OPJ_UINT32;
         while i < l_nb_tiles {
             if opj_j2k_pre_write_tile(p_j2k, i, p_stream, p_manager) == 0 {
-- 
2.43.0


From 3cd46e5052cf41ecde0a25e3ce483b761f49950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:59 +0000
Subject: [PATCH 061/143] fix: refuse tile grids which do not cover the image

---
 openjp2-rs/src/j2k.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 06b7a66..3b8df65 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7308,6 +7308,15 @@ pub(crate) fn opj_j2k_setup_encoder(
             }
         }
         // calculate other encoding parameters
+        if (*cp).tx0 > image.x0 || (*cp).ty0 > image.y0 || image.x0 >= image.x1 || image.y0 >= image.y1
+        {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid image area or tile offset: the tiles do not cover the image\n",
+            );
+            return 0i32;
+        }
         if parameters.tile_size_on != 0 {
             if (*cp).tdx == 0u32 {
                 event_msg!(p_manager, EVT_ERROR, "Invalid tile width\n",);
-- 
2.43.0


From 1a1f3fb8d53918243b185e5738bc12b2a13beb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 062/143] fix: refuse raw tile data when components are left
 out

---
 openjp2-rs/src/tcd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index f24375a..171037d 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1983,6 +1983,10 @@ pub(crate) fn opj_tcd_update_tile_data(p_tcd: &mut opj_tcd_t, mut p_dest: &mut [
                 // this component has no sample in the tile
                 continue;
             }
+            if l_src_data.is_null() {
+                // this component was not decoded
+                return 0i32;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_data, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From 1c0c86da5aa346ec6ff96e9052805737bbc7e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 063/143] fix: an image keeps no samples of other dimensions
 than it states

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 3b8df65..733afe8 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9884,6 +9884,8 @@ fn opj_j2k_update_image_dimensions(
                 return 0i32;
             }
             (*l_img_comp).h = l_h as OPJ_UINT32;
+            // samples of an earlier decode do not have these dimensions
+            (*l_img_comp).clear_data();
             l_img_comp = l_img_comp.offset(1);
             it_comp += 1;
         }
@@ -11996,6 +11998,8 @@ pub(crate) fn opj_j2k_get_tile(
                     (*l_img_comp).y0 as OPJ_INT32,
                     (*l_img_comp).factor as OPJ_INT32,
                 )) as OPJ_UINT32;
+            // samples of an earlier decode do not have these dimensions
+            (*l_img_comp).clear_data();
             l_img_comp = l_img_comp.offset(1);
             compno += 1;
         }
-- 
2.43.0


From 81f64537d709424c2e7f30e8529c6215f346ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 064/143] fix: leave out no packets of large precincts in PCRL
 and CPRL progressions

---
 openjp2-rs/src/pi.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index a79cc06..be845b3 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -820,8 +820,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << levelno) >> levelno) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << levelno) >> levelno) as u32 != (*comp).dy
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -846,8 +846,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << rpx) >> rpx) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << rpy) >> rpy) as u32 != (*comp).dy
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -1099,8 +1099,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << levelno) >> levelno) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << levelno) >> levelno) as u32 != (*comp).dy
                     {
                         current_block = 3123434771885419771;
                         continue;
@@ -1125,8 +1125,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << rpx) >> rpx) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << rpy) >> rpy) as u32 != (*comp).dy
                     {
                         current_block = 3123434771885419771;
                         continue;
-- 
2.43.0


From 9b68d228ac7470615b11e05c7807448e804077a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 065/143] fix: no overflow when a band has less than no
 bit-planes

---
 openjp2-rs/src/t2.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 0e923fb..8a77575 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1202,15 +1202,11 @@ unsafe fn opj_t2_read_packet_header(
                             i += 1;
                         }
                         (*l_cblk).Mb = (*l_band).numbps as OPJ_UINT32;
-                        if (*l_band).numbps as u32 + 1 < i {
-                            // Not totally sure what we should do in that situation,
-                            // but that avoids the integer overflow of
-                            // https://github.com/uclouvain/openjpeg/pull/1488
-                            // while keeping the regression test suite happy.
-                            (*l_cblk).numbps = ((*l_band).numbps + 1 - i as i32) as u32;
-                        } else {
-                            (*l_cblk).numbps = (*l_band).numbps as u32 + 1 - i;
-                        }
+                        // Not totally sure what we should do when this is negative,
+                        // but that avoids the integer overflow of
+                        // https://github.com/uclouvain/openjpeg/pull/1488
+                        // while keeping the regression test suite happy.
+                        (*l_cblk).numbps = ((*l_band).numbps + 1 - i as i32) as u32;
                         (*l_cblk).numlenbits = 3 as OPJ_UINT32
                     }
                     // number of coding passes
-- 
2.43.0


From e2aa46bd84403a434831d76c75c3ca0af9fe8b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 066/143] fix: refuse to encode images without components

---
 openjp2-rs/src/j2k.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 733afe8..80254cd 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6880,6 +6880,14 @@ pub(crate) fn opj_j2k_setup_encoder(
         let mut cp = std::ptr::null_mut::<opj_cp_t>();
         let mut cblkw: OPJ_UINT32 = 0;
         let mut cblkh: OPJ_UINT32 = 0;
+        if image.comps.is_null() || image.numcomps == 0 || image.numcomps > 16384 {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid number of components specified while setting up the encoder\n",
+            );
+            return 0i32;
+        }
         if parameters.numresolution <= 0i32 || parameters.numresolution > 33i32 {
             event_msg!(
                 p_manager,
-- 
2.43.0


From c0fd4fb3246994996f6882780a63e234e7d35b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 067/143] fix: a changed resolution factor is applied to the
 image which is decoded next

---
 openjp2-rs/src/j2k.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 80254cd..48c8961 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11882,14 +11882,13 @@ pub(crate) fn opj_j2k_decode(
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
         // opj_read_header(), modify x0,y0,x1,y1 of returned image an call opj_decode_image()
-        if p_j2k.m_cp.m_specific_param.m_dec.m_reduce > 0u32
-            && !p_j2k.m_private_image.is_null()
+        if !p_j2k.m_private_image.is_null()
             && (*p_j2k.m_private_image).numcomps > 0u32
             && (*(*p_j2k.m_private_image).comps.offset(0)).factor
                 == p_j2k.m_cp.m_specific_param.m_dec.m_reduce
             && p_image.numcomps > 0u32
-            && (*p_image.comps.offset(0)).factor == 0u32
-            && (*p_image.comps.offset(0)).data.is_null()
+            && (*p_image.comps.offset(0)).factor
+                != p_j2k.m_cp.m_specific_param.m_dec.m_reduce
         {
             let mut it_comp: OPJ_UINT32 = 0;
             // Update the comps[].factor member of the output image with the one
-- 
2.43.0


From 4cbe267663bc1414a3d1f8eae97ac44a9c36ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 068/143] fix: refuse coding parameters which a codestream
 cannot state

---
 openjp2-rs/src/j2k.rs | 94 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 94 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 48c8961..b907058 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6866,6 +6866,88 @@ fn opj_j2k_precinct_exponent(size: OPJ_INT32, resno: OPJ_INT32) -> OPJ_UINT32 {
     opj_int_floorlog2(size).clamp(min_exponent, 15) as OPJ_UINT32
 }
 
+/// Refuses what a codestream cannot state or this encoder cannot do
+fn opj_j2k_check_encoder_parameters(
+    parameters: &opj_cparameters_t,
+    image: &opj_image,
+    p_manager: &mut opj_event_mgr,
+) -> bool {
+    let comps =
+        unsafe { core::slice::from_raw_parts(image.comps, image.numcomps as usize) };
+    for (i, comp) in comps.iter().enumerate() {
+        if !(1..=31).contains(&comp.prec) {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid precision of component %d: %d not in range [1,31]\n",
+                i as i32,
+                comp.prec,
+            );
+            return false;
+        }
+        if !(1..=255).contains(&comp.dx) || !(1..=255).contains(&comp.dy) {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid subsampling of component %d: %dx%d not in range [1,255]\n",
+                i as i32,
+                comp.dx,
+                comp.dy,
+            );
+            return false;
+        }
+    }
+    if !(0..=100).contains(&parameters.tcp_numlayers) {
+        event_msg!(
+            p_manager,
+            EVT_ERROR,
+            "Invalid number of layers : %d not in range [0,100]\n",
+            parameters.tcp_numlayers,
+        );
+        return false;
+    }
+    let pocs = match parameters.POC.get(..parameters.numpocs as usize) {
+        Some(pocs) => pocs,
+        None => {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid number of progression order changes : %d\n",
+                parameters.numpocs,
+            );
+            return false;
+        }
+    };
+    if !(0..=4).contains(&parameters.prog_order)
+        || pocs.iter().any(|poc| !(0..=4).contains(&poc.prg1))
+    {
+        event_msg!(p_manager, EVT_ERROR, "Invalid progression order\n");
+        return false;
+    }
+    if parameters.csty & !0x7 != 0 || parameters.mode & !0x3f != 0 {
+        event_msg!(p_manager, EVT_ERROR, "Invalid coding style or code-block style\n");
+        return false;
+    }
+    if parameters.csty & 0x1 != 0 && !(1..=33).contains(&parameters.res_spec) {
+        event_msg!(p_manager, EVT_ERROR, "Invalid number of precinct sizes\n");
+        return false;
+    }
+    if !matches!(parameters.tcp_mct, 0 | 1) && parameters.mct_data.is_null() {
+        event_msg!(p_manager, EVT_ERROR, "Invalid multiple component transform\n");
+        return false;
+    }
+    if parameters.tp_on != 0 && !b"RCLP".contains(&(parameters.tp_flag as u8)) {
+        event_msg!(p_manager, EVT_ERROR, "Invalid division into tile-parts\n");
+        return false;
+    }
+    // a COM marker segment has a 16 bit length
+    if !parameters.cp_comment.is_null() && unsafe { strlen(parameters.cp_comment) } > 65531 {
+        event_msg!(p_manager, EVT_ERROR, "The comment is too long\n");
+        return false;
+    }
+    true
+}
+
 pub(crate) fn opj_j2k_setup_encoder(
     mut p_j2k: &mut opj_j2k,
     mut parameters: &mut opj_cparameters_t,
@@ -6945,6 +7027,10 @@ pub(crate) fn opj_j2k_setup_encoder(
             return 0i32;
         }
 
+        if !opj_j2k_check_encoder_parameters(parameters, image, p_manager) {
+            return 0i32;
+        }
+
         if parameters.cp_fixed_alloc != 0 {
             if parameters.cp_matrice.is_null() {
                 event_msg!(p_manager, EVT_ERROR, "cp_fixed_alloc set, but cp_matrice missing\n");
@@ -7546,6 +7632,14 @@ pub(crate) fn opj_j2k_setup_encoder(
                     return 0i32;
                 }
             } else {
+                if (*tcp).mct == 1u32 && image.numcomps < 3u32 {
+                    event_msg!(
+                        p_manager,
+                        EVT_WARNING,
+                        "Cannot perform MCT on less than three components. Disabling MCT.\n",
+                    );
+                    (*tcp).mct = 0 as OPJ_UINT32
+                }
                 if (*tcp).mct == 1u32 && image.numcomps >= 3u32 {
                     // RGB->YCC MCT is enabled
                     if (*image.comps.offset(0)).dx != (*image.comps.offset(1)).dx
-- 
2.43.0


From 4b86c56fcc532bdf40c13a706ee3d6a443113333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 069/143] fix: encoder options only between set-up and start of
 compression

---
 openjp2-rs/src/codec.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index 19feea3..14ebdb4 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -512,6 +512,20 @@ impl CodecFormat {
         true
     }
 
+    /// Options are for the time between set-up and start.
+    fn can_set_options(&self, p_manager: &mut opj_event_mgr) -> bool {
+        let j2k = self.j2k();
+        if j2k.m_cp.tcps.is_null() || !j2k.m_private_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Extra options can only be set between opj_setup_encoder and opj_start_compress.\n",
+            );
+            return false;
+        }
+        true
+    }
+
     /// Was compressing started?
     fn is_started(&self, p_manager: &mut opj_event_mgr) -> bool {
         let started = !self.j2k().m_tcd.is_null();
@@ -569,6 +583,7 @@ impl Codec {
 
     pub fn encoder_set_extra_options(&mut self, options: &[&str]) -> bool {
         match &mut self.m_codec {
+            CodecType::Encoder(enc) if !enc.can_set_options(&mut self.m_event_mgr) => false,
             CodecType::Encoder(enc) => match enc {
                 CodecFormat::J2K(enc) => unsafe {
                     opj_j2k_encoder_set_extra_options(enc, options, &mut self.m_event_mgr)
-- 
2.43.0


From 505a58ee4d087abe89e930a045bf8a4edaf8310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 070/143] fix: keep account of the tile buffer when encoding
 whole images after tiles

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index b907058..78cca0a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12309,7 +12309,11 @@ pub(crate) fn opj_j2k_encode(
                 let mut l_tilec = (*(*(*p_tcd).tcd_image).tiles).comps.offset(j as isize);
                 if l_reuse_data != 0 {
                     let mut l_img_comp = (*(*p_tcd).image).comps.offset(j as isize);
+                    if (*l_tilec).ownsData != 0 {
+                        opj_image_data_free((*l_tilec).data as *mut core::ffi::c_void);
+                    }
                     (*l_tilec).data = (*l_img_comp).data;
+                    (*l_tilec).data_size = 0;
                     (*l_tilec).ownsData = 0i32
                 } else if opj_alloc_tile_component_data(l_tilec) == 0 {
                     event_msg!(p_manager, EVT_ERROR, "Error allocating tile component data.",);
-- 
2.43.0


From ea3dc12ea53f32c88e9f7b288f3017496291e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 071/143] fix: read no further tile headers after a broken one

---
 openjp2-rs/src/j2k.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 78cca0a..4a82772 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9201,6 +9201,24 @@ pub(crate) fn opj_j2k_read_tile_header(
     p_stream: &mut Stream,
     tile_info: &mut TileInfo,
     p_manager: &mut opj_event_mgr,
+) -> bool {
+    let state = unsafe { p_j2k.m_specific_param.m_decoder.m_state };
+    if state != J2KState::EOC && state != J2KState::TPHSOT {
+        return false;
+    }
+    if !opj_j2k_read_next_tile_header(p_j2k, p_stream, tile_info, p_manager) {
+        // there is no way to find the next tile-part from inside a broken one
+        unsafe { p_j2k.m_specific_param.m_decoder.m_state |= J2KState::ERR };
+        return false;
+    }
+    true
+}
+
+fn opj_j2k_read_next_tile_header(
+    p_j2k: &mut opj_j2k,
+    p_stream: &mut Stream,
+    tile_info: &mut TileInfo,
+    p_manager: &mut opj_event_mgr,
 ) -> bool {
     unsafe {
         let mut l_current_marker = J2KMarker::SOT;
@@ -9212,8 +9230,6 @@ pub(crate) fn opj_j2k_read_tile_header(
         // Reach the End Of Codestream ?
         if p_j2k.m_specific_param.m_decoder.m_state == J2KState::EOC {
             l_current_marker = J2KMarker::EOC;
-        } else if p_j2k.m_specific_param.m_decoder.m_state != J2KState::TPHSOT {
-            return false;
         }
         // We need to encounter a SOT marker (a new tile-part header)
         // Read into the codestream until reach the EOC or ! can_decode ??? FIXME
-- 
2.43.0


From 16119ee0d2f82c70390ee652753c643c9edff6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 072/143] fix: refuse tile grids whose first tile is outside of
 the image

---
 openjp2-rs/src/j2k.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 4a82772..74ec692 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7420,6 +7420,15 @@ pub(crate) fn opj_j2k_setup_encoder(
                 event_msg!(p_manager, EVT_ERROR, "Invalid tile height\n",);
                 return 0i32;
             }
+            // ISO 15444-1 B.3: the first tile has to contain some of the image area
+            if image.x0 - (*cp).tx0 >= (*cp).tdx || image.y0 - (*cp).ty0 >= (*cp).tdy {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Invalid tile offset: the first tile is outside of the image\n",
+                );
+                return 0i32;
+            }
             (*cp).tw = opj_uint_ceildiv(image.x1 - ((*cp).tx0), (*cp).tdx);
             (*cp).th = opj_uint_ceildiv(image.y1 - ((*cp).ty0), (*cp).tdy);
             // Check that the number of tiles is valid
-- 
2.43.0


From a202bbfaa700a38d21127e00df6a1cfe7bb83fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 073/143] fix: decode no codestream whose reading failed

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 74ec692..e677522 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11638,6 +11638,10 @@ fn opj_j2k_decode_tiles(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
+        if p_j2k.m_specific_param.m_decoder.m_state & J2KState::ERR != J2KState::NONE {
+            event_msg!(p_manager, EVT_ERROR, "Reading the codestream failed before\n");
+            return 0i32;
+        }
         let mut tile_info = TileInfo::default();
         let mut nr_tiles = 0 as OPJ_UINT32;
         // Particular case for whole single tile decoding
-- 
2.43.0


From 3e17a814a19b64dca7d7fc789fb4228e08f911a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 074/143] fix: take no more memory for a tile-part than the
 stream has data left

---
 openjp2-rs/src/j2k.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e677522..02105b6 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4276,6 +4276,8 @@ fn opj_j2k_read_sod(
         let mut l_tcp = std::ptr::null_mut::<opj_tcp_t>();
         let mut l_tile_len = std::ptr::null_mut::<OPJ_UINT32>();
         let mut l_sot_length_pb_detected = 0i32;
+        // how much of the tile part the stream still holds
+        let mut l_available: OPJ_UINT32 = 0;
         // preconditions
 
         l_tcp =
@@ -4297,6 +4299,7 @@ fn opj_j2k_read_sod(
         // Check to avoid pass the limit of OPJ_UINT32
         // Patch to support new PHR data
         if p_j2k.m_specific_param.m_decoder.m_sot_length != 0 {
+            l_available = p_j2k.m_specific_param.m_decoder.m_sot_length;
             // If we are here, we'll try to read the data after allocation
             // Check enough bytes left in stream before allocation
             if p_j2k.m_specific_param.m_decoder.m_sot_length as OPJ_OFF_T
@@ -4315,6 +4318,10 @@ fn opj_j2k_read_sod(
                         EVT_WARNING,
                         "Tile part length size inconsistent with stream length\n",
                     );
+                    let l_left = opj_stream_get_number_byte_left(p_stream);
+                    if l_left > 0 {
+                        l_available = l_left as OPJ_UINT32;
+                    }
                 }
             }
             if p_j2k.m_specific_param.m_decoder.m_sot_length
@@ -4338,11 +4345,7 @@ fn opj_j2k_read_sod(
                 // TODO: If this was consistent, we could simplify the code to only use realloc(),
                 // as realloc(0,...) default to malloc(0,...).
                 *l_current_data = opj_malloc(
-                    p_j2k
-                        .m_specific_param
-                        .m_decoder
-                        .m_sot_length
-                        .wrapping_add(2u32) as size_t,
+                    l_available.wrapping_add(2u32) as size_t,
                 ) as *mut OPJ_BYTE
             } else {
                 let mut l_new_current_data = std::ptr::null_mut::<OPJ_BYTE>();
@@ -4351,7 +4354,7 @@ fn opj_j2k_read_sod(
                         .wrapping_mul(2u32)
                         .wrapping_add(1u32)
                         .wrapping_sub(2u32)
-                        .wrapping_sub(p_j2k.m_specific_param.m_decoder.m_sot_length)
+                        .wrapping_sub(l_available)
                 {
                     event_msg!(p_manager, EVT_ERROR,
                               "*l_tile_len > UINT_MAX - OPJ_COMMON_CBLK_DATA_EXTRA - p_j2k->m_specific_param.m_decoder.m_sot_length");
@@ -4360,7 +4363,7 @@ fn opj_j2k_read_sod(
                 l_new_current_data = opj_realloc(
                     *l_current_data as *mut core::ffi::c_void,
                     (*l_tile_len)
-                        .wrapping_add(p_j2k.m_specific_param.m_decoder.m_sot_length)
+                        .wrapping_add(l_available)
                         .wrapping_add(2u32) as size_t,
                 ) as *mut OPJ_BYTE;
                 if l_new_current_data.is_null() {
@@ -4422,7 +4425,7 @@ fn opj_j2k_read_sod(
             l_current_read_size = opj_stream_read_data(
                 p_stream,
                 (*l_current_data).offset(*l_tile_len as isize),
-                p_j2k.m_specific_param.m_decoder.m_sot_length as OPJ_SIZE_T,
+                l_available as OPJ_SIZE_T,
                 p_manager,
             );
             if l_current_read_size == usize::MAX {
-- 
2.43.0


From 94f82a761b5c7fbc1a48b01c74ffd57c43ea8570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 075/143] fix: compute the size of a palette without overflow

---
 openjp2-rs/src/jp2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 641b81c..9ef9baf 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -654,7 +654,7 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
     if buf.len() < nr_channels as usize {
         return 0;
     }
-    let mut entries = Vec::with_capacity((nr_channels * nr_channels) as usize);
+    let mut entries = Vec::with_capacity(nr_entries as usize * nr_channels as usize);
     let mut channel = Vec::with_capacity(nr_channels as usize);
     for _ in 0..nr_channels {
         let value = buf.read_u8().expect("Buffer should have enough data");
-- 
2.43.0


From 8e45a7b2c10ad24370b697867b0f7470650d8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 076/143] fix: signal components that differ only in sign with
 a bits-per-component box

---
 openjp2-rs/src/jp2.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 9ef9baf..111fe65 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1221,8 +1221,7 @@ pub(crate) fn opj_jp2_setup_encoder(
     jp2.bpc = depth_0.wrapping_add(sign << 7);
     for comp in &comps[1..] {
         let mut depth = comp.prec.wrapping_sub(1);
-        // sign = comp.sgnd;
-        if depth_0 != depth {
+        if depth_0 != depth || sign != comp.sgnd {
             jp2.bpc = 255 as OPJ_UINT32
         }
     }
-- 
2.43.0


From 13971ab882d3561a10257f6706c6dfc7a5612ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 077/143] fix: write the colour space of CMYK and e-YCC images

---
 openjp2-rs/src/jp2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 111fe65..8c8243b 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1258,6 +1258,12 @@ pub(crate) fn opj_jp2_setup_encoder(
         } else if image.color_space as core::ffi::c_int == 3 {
             jp2.enumcs = 18 as OPJ_UINT32
             // YUV
+        } else if image.color_space == OPJ_CLRSPC_EYCC {
+            jp2.enumcs = 24
+        } else if image.color_space == OPJ_CLRSPC_CMYK {
+            jp2.enumcs = 12
+        } else {
+            jp2.enumcs = 0
         }
     }
     // Channel Definition box
-- 
2.43.0


From 33af5d4df258e393606861c9a25d635cf653d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 078/143] fix: keep enough bytes of a truncated coding pass to
 decode it

---
 openjp2-rs/src/t1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index e6f4aa9..413b783 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2889,7 +2889,9 @@ fn opj_t1_encode_cblk(
                     rate_extra_bytes =
                         opj_mqc_bypass_get_extra_bytes(&mut t1.mqc, (cblksty & 0x10) as OPJ_BOOL)
                 } else {
-                    rate_extra_bytes = 3 as OPJ_UINT32
+                    // the last byte written, and up to 26 bits of the C register
+                    // which are needed to decode the last symbols of the pass
+                    rate_extra_bytes = 5 as OPJ_UINT32
                 }
                 (*pass).term = false;
                 (*pass).rate = opj_mqc_numbytes(&mut t1.mqc).wrapping_add(rate_extra_bytes)
-- 
2.43.0


From 4790eb10ee014c98e85e1a9c050bcf376c04c357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 079/143] fix: give the channels of a palette samples of their
 own

---
 openjp2-rs/src/jp2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 8c8243b..63b6db0 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -587,6 +587,12 @@ fn opj_jp2_apply_pclr(
 
         // Palette mapping:
         *new_comp = *old_comp;
+        // The samples still belong to the old component.
+        new_comp.data = std::ptr::null_mut();
+        if !new_comp.alloc_data() {
+            event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
+            return 0;
+        }
         new_comp.prec = channel.size as OPJ_UINT32;
         new_comp.sgnd = channel.sign as OPJ_UINT32;
 
-- 
2.43.0


From a2495f9252d324c7fff1d0b830a00692c0b8bd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 080/143] fix: no overflow in the inverse 5-3 transform of
 damaged coefficients

---
 openjp2-rs/src/dwt.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 033102d..f550113 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -135,24 +135,24 @@ impl dwt_local {
         if self.cas == 0 {
             if self.dn > 0 || self.sn > 1 {
                 for i in 0..self.sn {
-                    let val = (self.d_(i - 1) + self.d_(i) + 2) >> 2;
-                    *self.s_mut(i) -= val;
+                    let val = self.d_(i - 1).wrapping_add(self.d_(i)).wrapping_add(2) >> 2;
+                    *self.s_mut(i) = self.s(i).wrapping_sub(val);
                 }
                 for i in 0..self.dn {
-                    let val = (self.s_(i) + self.s_(i + 1)) >> 1;
-                    *self.d_mut(i) += val;
+                    let val = self.s_(i).wrapping_add(self.s_(i + 1)) >> 1;
+                    *self.d_mut(i) = self.d(i).wrapping_add(val);
                 }
             }
         } else if self.sn == 0 && self.dn == 1 {
             *self.s_mut(0) /= 2;
         } else {
             for i in 0..self.sn {
-                let val = (self.ss_(i) + self.ss_(i + 1) + 2) >> 2;
-                *self.d_mut(i) -= val;
+                let val = self.ss_(i).wrapping_add(self.ss_(i + 1)).wrapping_add(2) >> 2;
+                *self.d_mut(i) = self.d(i).wrapping_sub(val);
             }
             for i in 0..self.dn {
-                let val = (self.dd_(i) + self.dd_(i - 1)) >> 1;
-                *self.s_mut(i) += val;
+                let val = self.dd_(i).wrapping_add(self.dd_(i - 1)) >> 1;
+                *self.s_mut(i) = self.s(i).wrapping_add(val);
             }
         }
     }
@@ -167,12 +167,12 @@ impl dwt_local {
         if self.cas == 0 {
             if self.dn > 0 || self.sn > 1 {
                 for i in win_l_x0..win_l_x1 {
-                    let val = (self.d_(i - 1) + self.d_(i) + 2) >> 2;
-                    *self.s_mut(i) -= val;
+                    let val = self.d_(i - 1).wrapping_add(self.d_(i)).wrapping_add(2) >> 2;
+                    *self.s_mut(i) = self.s(i).wrapping_sub(val);
                 }
                 for i in win_h_x0..win_h_x1 {
-                    let val = (self.s_(i) + self.s_(i + 1)) >> 1;
-                    *self.d_mut(i) += val;
+                    let val = self.s_(i).wrapping_add(self.s_(i + 1)) >> 1;
+                    *self.d_mut(i) = self.d(i).wrapping_add(val);
                 }
             }
         } else if self.sn == 0 && self.dn == 1 {
-- 
2.43.0


From 56c83e1143c2e1b2ad6d7853c1f8818dffb8852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:16 +0000
Subject: [PATCH 081/143] fix: size of a reduced component from its corners on
 the reduced grid

---
 openjp2-rs/src/image.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index a8cd641..fd87038 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -410,10 +410,10 @@ pub(crate) fn opj_image_comp_header_update(
             let l_comp_y0 = opj_uint_ceildiv(l_y0, comp.dy);
             let l_comp_x1 = opj_uint_ceildiv(l_x1, comp.dx);
             let l_comp_y1 = opj_uint_ceildiv(l_y1, comp.dy);
-            let l_width = opj_uint_ceildivpow2(l_comp_x1.wrapping_sub(l_comp_x0), comp.factor);
-            let l_height = opj_uint_ceildivpow2(l_comp_y1.wrapping_sub(l_comp_y0), comp.factor);
-            comp.w = l_width;
-            comp.h = l_height;
+            comp.w = opj_uint_ceildivpow2(l_comp_x1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_x0, comp.factor));
+            comp.h = opj_uint_ceildivpow2(l_comp_y1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_y0, comp.factor));
             comp.x0 = l_comp_x0;
             comp.y0 = l_comp_y0;
         }
-- 
2.43.0


From 9fa4e5b1b5402a32f3d22659da500c1be441603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 082/143] fix: refuse to discard more resolutions than a
 codestream can have

---
 openjp2-rs/src/j2k.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 02105b6..e5e3f6e 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1298,6 +1298,16 @@ fn opj_j2k_read_siz(
             );
             return 0i32;
         }
+        // A component has at most 33 resolutions
+        if (*l_cp).m_specific_param.m_dec.m_reduce > 32u32 {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Impossible number of resolutions to discard: %u\n",
+                (*l_cp).m_specific_param.m_dec.m_reduce,
+            );
+            return 0i32;
+        }
         // testcase issue427-illegal-tile-offset.jp2
         l_tx1 = opj_uint_adds((*l_cp).tx0, (*l_cp).tdx); // manage overflow
         l_ty1 = opj_uint_adds((*l_cp).ty0, (*l_cp).tdy); // manage overflow
-- 
2.43.0


From 37d85ae5e384523f8eb2f465e0f65c7185701bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 083/143] fix: nothing to transform irreversibly where no
 samples are left

---
 openjp2-rs/src/dwt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index f550113..eaed8ed 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -2502,7 +2502,11 @@ unsafe fn opj_dwt_decode_tile_97(
         .offset((*tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize))
     .x0) as OPJ_UINT32;
     let mut l_data_size: OPJ_SIZE_T = 0;
-    if numres == 1u32 {
+    let tr_last = (*tilec)
+        .resolutions
+        .offset((*tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize);
+    // nothing to transform when no samples are left at this resolution
+    if numres == 1u32 || w == 0 || (*tr_last).y1 == (*tr_last).y0 {
         return 1i32;
     }
     l_data_size = opj_dwt_max_resolution(res, numres) as OPJ_SIZE_T;
-- 
2.43.0


From 86fcb4219ca4203d861e114f22bf4155888b8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 084/143] fix: a component without samples has been decoded
 when it has none

---
 openjp2-rs/src/j2k.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e5e3f6e..241a36b 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11609,10 +11609,9 @@ fn opj_j2k_are_all_used_components_decoded(
                     .m_decoder
                     .m_comps_indices_to_decode
                     .offset(compno as isize);
-                if (*(*p_j2k.m_output_image).comps.offset(dec_compno as isize))
-                    .data
-                    .is_null()
-                {
+                let comp = &*(*p_j2k.m_output_image).comps.offset(dec_compno as isize);
+                // a component without samples has no data
+                if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
                     event_msg!(
                         p_manager,
                         EVT_WARNING,
@@ -11626,10 +11625,8 @@ fn opj_j2k_are_all_used_components_decoded(
         } else {
             compno = 0 as OPJ_UINT32;
             while compno < (*p_j2k.m_output_image).numcomps {
-                if (*(*p_j2k.m_output_image).comps.offset(compno as isize))
-                    .data
-                    .is_null()
-                {
+                let comp = &*(*p_j2k.m_output_image).comps.offset(compno as isize);
+                if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
                     event_msg!(p_manager, EVT_WARNING, "Failed to decode component %d\n", compno,);
                     decoded_all_used_components = 0i32
                 }
-- 
2.43.0


From 3d8721c470129c3f7039e4a95b60c770dbb5c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 085/143] fix: decode areas of interest in which components
 have no samples

---
 openjp2-rs/src/dwt.rs |  8 ++++++++
 openjp2-rs/src/j2k.rs | 12 ++++++++----
 openjp2-rs/src/tcd.rs |  3 +++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index eaed8ed..95aa420 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1815,6 +1815,10 @@ unsafe fn opj_dwt_decode_partial_tile(
     if (*tr_max).x0 == (*tr_max).x1 || (*tr_max).y0 == (*tr_max).y1 {
         return 1i32;
     }
+    // The area of interest may have no sample of the component
+    if (*tr_max).win_x0 >= (*tr_max).win_x1 || (*tr_max).win_y0 >= (*tr_max).win_y1 {
+        return 1i32;
+    }
     sa = opj_dwt_init_sparse_array(tilec, numres);
     if sa.is_null() {
         return 0i32;
@@ -2683,6 +2687,10 @@ unsafe fn opj_dwt_decode_partial_97(
     if (*tr_max).x0 == (*tr_max).x1 || (*tr_max).y0 == (*tr_max).y1 {
         return 1i32;
     }
+    // The area of interest may have no sample of the component
+    if (*tr_max).win_x0 >= (*tr_max).win_x1 || (*tr_max).win_y0 >= (*tr_max).win_y1 {
+        return 1i32;
+    }
     sa = opj_dwt_init_sparse_array(tilec, numres);
     if sa.is_null() {
         return 0i32;
diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 241a36b..d1a0383 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9789,13 +9789,17 @@ fn opj_j2k_update_image_data(
                 src_data_stride = (*l_res_0).win_x1.wrapping_sub((*l_res_0).win_x0);
                 p_src_data = (*l_tilec).data_win
             }
-            // A tile may have no sample of a subsampled component: no packet tells then
-            // which resolution was decoded, and there is nothing to copy
+            // A tile or the area of interest may have no sample of a component: no packet
+            // tells then which resolution was decoded, and there is nothing to copy
             let l_top_res = (*l_tilec)
                 .resolutions
                 .offset((*l_tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize);
-            let l_is_empty =
-                (*l_top_res).x0 >= (*l_top_res).x1 || (*l_top_res).y0 >= (*l_top_res).y1;
+            let l_is_empty = (*l_top_res).x0 >= (*l_top_res).x1
+                || (*l_top_res).y0 >= (*l_top_res).y1
+                || (*l_img_comp_dest).w == 0
+                || (*l_img_comp_dest).h == 0
+                || res_x0 >= res_x1
+                || res_y0 >= res_y1;
             if !p_src_data.is_null() && !l_is_empty {
                 l_width_src = (res_x1 - res_x0) as OPJ_UINT32;
                 l_height_src = (res_y1 - res_y0) as OPJ_UINT32;
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 171037d..647bf20 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2355,6 +2355,9 @@ unsafe fn opj_tcd_mct_decode(
             }
         }
     }
+    if l_samples == 0 {
+        return 1i32;
+    }
     if (*l_tile).numcomps >= 3u32 {
         if (*l_tcp).mct == 2u32 {
             let mut l_data = std::ptr::null_mut::<*mut OPJ_BYTE>();
-- 
2.43.0


From a680e54caba72f6c2d4b8f884c59dc1b0ed8592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:49 +0000
Subject: [PATCH 086/143] fix: a custom component transform needs components of
 equal size

---
 openjp2-rs/src/j2k.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d1a0383..cdb24a8 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7572,6 +7572,17 @@ pub(crate) fn opj_j2k_setup_encoder(
                 let mut lMctLen = numcomps * numcomps;
                 let mut lMctSize =
                     lMctLen.wrapping_mul(core::mem::size_of::<OPJ_FLOAT32>() as OPJ_UINT32);
+                if (1..numcomps as isize).any(|i| {
+                    (*image.comps.offset(i)).dx != (*image.comps).dx
+                        || (*image.comps.offset(i)).dy != (*image.comps).dy
+                }) {
+                    event_msg!(
+                        p_manager,
+                        EVT_ERROR,
+                        "Cannot perform custom MCT on components with different sizes\n",
+                    );
+                    return 0i32;
+                }
                 let mut lTmpBuf = opj_malloc(lMctSize as size_t) as *mut OPJ_FLOAT32;
                 let mut l_dc_shift = (parameters.mct_data as *mut OPJ_BYTE)
                     .offset(lMctSize as isize)
-- 
2.43.0


From cc916025cd432eb98f785bbff241f0acebc21e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 087/143] fix: invert the matrix of a custom component
 transform

---
 openjp2-rs/src/invert.rs | 162 +++++++++------------------------------
 1 file changed, 37 insertions(+), 125 deletions(-)

diff --git a/openjp2-rs/src/invert.rs b/openjp2-rs/src/invert.rs
index 84f88bc..c28a5e7 100644
--- a/openjp2-rs/src/invert.rs
+++ b/openjp2-rs/src/invert.rs
@@ -77,82 +77,45 @@ fn opj_lupDecompose(
     p_swap_area: &mut [f32],
     nb_compo: usize,
 ) -> bool {
-    let mut tmp_permutations = 0;
-    let mut k2 = 0;
-    let mut temp = 0.0;
-    let l_last_column = nb_compo - 1;
-    let l_swap_size = nb_compo * std::mem::size_of::<f32>();
-    let mut l_tmp_matrix = 0;
-    let mut l_column_matrix = 0;
-    let mut l_dest_matrix = 0;
-    let mut offset = 1;
-    let mut l_stride = nb_compo - 1;
+    let n = nb_compo;
     // initialize permutations
-    for i in 0..nb_compo {
-        permutations[i] = i as u32;
+    for (i, permutation) in permutations.iter_mut().enumerate() {
+        *permutation = i as u32;
     }
-    // now make a pivot with column switch
-    for k in 0..l_last_column {
-        // take the middle element
-        l_column_matrix = l_tmp_matrix + k;
+    // now make a pivot with line switch
+    for k in 0..n {
         // make permutation with the biggest value in the column
         let mut p = 0.0;
-        for i in k..nb_compo {
-            temp = matrix[l_column_matrix].abs();
+        let mut k2 = k;
+        for i in k..n {
+            let temp = matrix[i * n + k].abs();
             if temp > p {
                 p = temp;
                 k2 = i;
             }
-            // next line
-            l_column_matrix += nb_compo;
         }
-        // a whole rest of 0 -> non singular
+        // a whole rest of 0 -> singular
         if p == 0.0 {
             return false;
         }
         // should we permute ?
         if k2 != k {
-            // exchange of line
-            // k2 > k
-            let dst_p = tmp_permutations + k2 - k;
             // swap indices
-            permutations.swap(tmp_permutations, dst_p);
+            permutations.swap(k, k2);
             // and swap entire line.
-            l_column_matrix = l_tmp_matrix + (k2 - k) * nb_compo;
-            p_swap_area.copy_from_slice(&matrix[l_column_matrix..l_column_matrix + l_swap_size]);
-            matrix.copy_within(l_tmp_matrix..l_tmp_matrix + l_swap_size, l_column_matrix);
-            matrix[l_tmp_matrix..l_tmp_matrix + l_swap_size]
-                .copy_from_slice(&p_swap_area[..l_swap_size]);
+            p_swap_area.copy_from_slice(&matrix[k2 * n..(k2 + 1) * n]);
+            matrix.copy_within(k * n..(k + 1) * n, k2 * n);
+            matrix[k * n..(k + 1) * n].copy_from_slice(p_swap_area);
         }
         // now update data in the rest of the line and line after
-        l_dest_matrix = l_tmp_matrix + k;
-        l_column_matrix = l_dest_matrix + nb_compo;
-        // take the middle element
-        let temp = matrix[l_dest_matrix];
-        l_dest_matrix += 1;
-        // now compute up data (i.e. coeff up of the diagonal).
-        for _ in offset..nb_compo {
+        for i in k + 1..n {
             // divide the lower column elements by the diagonal value
-            // matrix[i][k] /= matrix[k][k];
-            // p = matrix[i][k]
-            let p = matrix[l_column_matrix] / temp;
-            l_column_matrix += 1;
-            matrix[l_column_matrix] = p;
-
-            for j in offset..nb_compo {
-                matrix[l_dest_matrix + j] -= p * matrix[l_dest_matrix + j - 1];
+            let p = matrix[i * n + k] / matrix[k * n + k];
+            matrix[i * n + k] = p;
+            for j in k + 1..n {
+                matrix[i * n + j] -= p * matrix[k * n + j];
             }
-            // come back to the k+1th element
-            l_dest_matrix -= l_stride;
-            // go to kth element of the next line
-            l_column_matrix += k;
         }
-        // offset is now k+2
-        offset += 1;
-        // 1 element less for stride
-        l_stride -= 1;
-        // next line
-        l_tmp_matrix += nb_compo;
     }
     true
 }
@@ -166,63 +129,20 @@ fn opj_lupSolve(
     nb_compo: usize,
     p_intermediate_data: &mut [f32],
 ) {
-    let mut k: i32 = 0;
-    let mut i: usize = 0;
-    let mut j: usize = 0;
-    let mut sum: f32 = 0.;
-    let mut u: f32 = 0.;
-    let l_stride = nb_compo + 1;
-    let mut l_current_ptr: usize;
-    let mut l_intermediate_ptr: usize;
-    let mut l_dest_ptr: usize;
-    let mut l_tmp_matrix: usize;
-    let mut l_line_matrix = 0;
-    let mut l_begin_ptr = p_result.len() - 1;
-    let mut l_generated_data = 0;
-    let mut l_current_permutation_ptr = 0;
-    l_intermediate_ptr = 0;
-    l_generated_data = nb_compo - 1;
-    i = 0;
-    while i < nb_compo {
-        sum = 0.0;
-        l_current_ptr = 0;
-        l_tmp_matrix = l_line_matrix;
-        j = 1;
-        while j <= i {
-            sum += p_matrix[l_tmp_matrix] * p_intermediate_data[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
+    let n = nb_compo;
+    for i in 0..n {
+        let mut sum = 0.0;
+        for j in 0..i {
+            sum += p_matrix[i * n + j] * p_intermediate_data[j];
         }
-        p_intermediate_data[l_intermediate_ptr] =
-            p_vector[p_permutations[l_current_permutation_ptr] as usize] - sum;
-        l_line_matrix += nb_compo;
-        l_intermediate_ptr += 1;
-        l_current_permutation_ptr += 1;
-        i += 1;
+        p_intermediate_data[i] = p_vector[p_permutations[i] as usize] - sum;
     }
-    l_line_matrix = p_matrix.len() - nb_compo - 1;
-    l_dest_ptr = nb_compo;
-    assert!(nb_compo != 0);
-    k = nb_compo as i32 - 1;
-    while k != -1 {
-        sum = 0.0;
-        l_tmp_matrix = l_line_matrix;
-        u = p_matrix[l_tmp_matrix];
-        l_line_matrix -= l_stride;
-        l_current_ptr = l_dest_ptr;
-        j = (k + 1) as usize;
-        while j < nb_compo {
-            sum += p_matrix[l_tmp_matrix] * p_result[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
+    for k in (0..n).rev() {
+        let mut sum = 0.0;
+        for j in k + 1..n {
+            sum += p_matrix[k * n + j] * p_result[j];
         }
-        p_result[l_begin_ptr] = (p_intermediate_data[l_generated_data] - sum) / u;
-        l_generated_data -= 1;
-        l_begin_ptr -= 1;
-        l_dest_ptr -= 1;
-        k -= 1;
+        p_result[k] = (p_intermediate_data[k] - sum) / p_matrix[k * n + k];
     }
 }
 // *
@@ -236,27 +156,19 @@ fn opj_lupInvert(
     p_dest_temp: &mut [f32],
     p_swap_area: &mut [f32],
 ) {
-    let nb_compo_usize = nb_compo;
-    let mut lLineMatrix = pDestMatrix;
     for j in 0..nb_compo {
-        let lCurrentPtr = &mut lLineMatrix[j + 1..];
         p_src_temp.fill(0.0);
         p_src_temp[j] = 1.0;
-        let p_src_temp_slice = &mut p_src_temp[..nb_compo_usize];
-        let p_dest_temp_slice = &mut p_dest_temp[..nb_compo_usize];
-        let pSrcMatrix_slice = &pSrcMatrix[..nb_compo_usize * nb_compo_usize];
-        let pPermutations_slice = &pPermutations[..nb_compo_usize];
-        let p_swap_area_slice = &mut p_swap_area[..nb_compo_usize];
         opj_lupSolve(
-            p_dest_temp_slice,
-            pSrcMatrix_slice,
-            p_src_temp_slice,
-            pPermutations_slice,
-            nb_compo_usize,
-            p_swap_area_slice,
+            p_dest_temp,
+            pSrcMatrix,
+            p_src_temp,
+            pPermutations,
+            nb_compo,
+            p_swap_area,
         );
-        for i in 0..nb_compo_usize {
-            lCurrentPtr[i * nb_compo_usize] = p_dest_temp[i];
+        for i in 0..nb_compo {
+            pDestMatrix[i * nb_compo + j] = p_dest_temp[i];
         }
     }
 }
-- 
2.43.0


From 420451aa19437ccc8c5d066e48ff20ef9342f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 088/143] fix: apply a custom component transform to the
 samples of irreversible coding

---
 openjp2-rs/src/j2k.rs |  8 ++++++++
 openjp2-rs/src/mct.rs | 42 ++++++++++--------------------------------
 2 files changed, 18 insertions(+), 32 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index cdb24a8..f5e2092 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7583,6 +7583,14 @@ pub(crate) fn opj_j2k_setup_encoder(
                     );
                     return 0i32;
                 }
+                if parameters.irreversible == 0 {
+                    event_msg!(
+                        p_manager,
+                        EVT_ERROR,
+                        "Custom MCT needs the irreversible wavelet transform\n",
+                    );
+                    return 0i32;
+                }
                 let mut lTmpBuf = opj_malloc(lMctSize as size_t) as *mut OPJ_FLOAT32;
                 let mut l_dc_shift = (parameters.mct_data as *mut OPJ_BYTE)
                     .offset(lMctSize as isize)
diff --git a/openjp2-rs/src/mct.rs b/openjp2-rs/src/mct.rs
index ed38713..7a6248f 100644
--- a/openjp2-rs/src/mct.rs
+++ b/openjp2-rs/src/mct.rs
@@ -5,15 +5,6 @@ extern "C" {
     fn sqrt(_: core::ffi::c_double) -> core::ffi::c_double;
 }
 
-#[inline]
-unsafe fn opj_int_fix_mul(mut a: OPJ_INT32, mut b: OPJ_INT32) -> OPJ_INT32 {
-    let mut temp = a as OPJ_INT64 * b as OPJ_INT64;
-    temp += 4096i64;
-
-    assert!(temp >> 13i32 <= 0x7FFFFFFF as OPJ_INT64);
-    assert!(temp >> 13i32 >= -(0x7FFFFFFF as OPJ_INT64) - 1 as OPJ_INT64);
-    (temp >> 13i32) as OPJ_INT32
-}
 // The copyright in this software is being made available under the 2-clauses
 // BSD License, included below. This software may be subject to other third
 // party and contributor rights, including patent rights, and no such rights
@@ -189,34 +180,21 @@ pub(crate) unsafe fn opj_mct_encode_custom(
     mut pNbComp: OPJ_UINT32,
     mut _isSigned: OPJ_UINT32,
 ) -> OPJ_BOOL {
-    let mut lMct = pCodingdata as *mut OPJ_FLOAT32;
+    let mut lMct = std::ptr::null_mut::<OPJ_FLOAT32>();
     let mut i: OPJ_SIZE_T = 0;
     let mut j: OPJ_UINT32 = 0;
     let mut k: OPJ_UINT32 = 0;
-    let mut lNbMatCoeff = pNbComp.wrapping_mul(pNbComp);
-    let mut lCurrentData = std::ptr::null_mut::<OPJ_INT32>();
-    let mut lCurrentMatrix = std::ptr::null_mut::<OPJ_INT32>();
-    let mut lData = pData as *mut *mut OPJ_INT32;
-    let mut lMultiplicator = ((1i32) << 13i32) as OPJ_UINT32;
-    let mut lMctPtr = std::ptr::null_mut::<OPJ_INT32>();
-    lCurrentData = opj_malloc(
-        (pNbComp.wrapping_add(lNbMatCoeff) as usize)
-            .wrapping_mul(core::mem::size_of::<OPJ_INT32>()),
-    ) as *mut OPJ_INT32;
+    let mut lData = pData as *mut *mut OPJ_FLOAT32;
+    // The samples of irreversible coding, which a custom transform needs, are floats here
+    let mut lCurrentData =
+        opj_malloc((pNbComp as usize).wrapping_mul(core::mem::size_of::<OPJ_FLOAT32>()))
+            as *mut OPJ_FLOAT32;
     if lCurrentData.is_null() {
         return 0i32;
     }
-    lCurrentMatrix = lCurrentData.offset(pNbComp as isize);
-    i = 0 as OPJ_SIZE_T;
-    while i < lNbMatCoeff as usize {
-        let fresh0 = lMct;
-        lMct = lMct.offset(1);
-        *lCurrentMatrix.add(i) = (*fresh0 * lMultiplicator as OPJ_FLOAT32) as OPJ_INT32;
-        i += 1;
-    }
     i = 0 as OPJ_SIZE_T;
     while i < n {
-        lMctPtr = lCurrentMatrix;
+        lMct = pCodingdata as *mut OPJ_FLOAT32;
         j = 0 as OPJ_UINT32;
         while j < pNbComp {
             *lCurrentData.offset(j as isize) = **lData.offset(j as isize);
@@ -224,12 +202,12 @@ pub(crate) unsafe fn opj_mct_encode_custom(
         }
         j = 0 as OPJ_UINT32;
         while j < pNbComp {
-            **lData.offset(j as isize) = 0i32;
+            **lData.offset(j as isize) = 0 as OPJ_FLOAT32;
             k = 0 as OPJ_UINT32;
             while k < pNbComp {
                 let fresh1 = &mut (**lData.offset(j as isize));
-                *fresh1 += opj_int_fix_mul(*lMctPtr, *lCurrentData.offset(k as isize));
-                lMctPtr = lMctPtr.offset(1);
+                *fresh1 += *lMct * *lCurrentData.offset(k as isize);
+                lMct = lMct.offset(1);
                 k += 1;
             }
             let fresh2 = &mut (*lData.offset(j as isize));
-- 
2.43.0


From 62114927f92ad744ff0c9f455320ad3b7f2fc269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 089/143] fix: damaged samples wrap around in the inverse
 component transform

---
 openjp2-rs/src/mct.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/mct.rs b/openjp2-rs/src/mct.rs
index 7a6248f..8876669 100644
--- a/openjp2-rs/src/mct.rs
+++ b/openjp2-rs/src/mct.rs
@@ -99,9 +99,9 @@ pub(crate) unsafe fn opj_mct_decode(
         let mut y = *c0.add(i);
         let mut u = *c1.add(i);
         let mut v = *c2.add(i);
-        let mut g = y - ((u + v) >> 2i32);
-        let mut r = v + g;
-        let mut b = u + g;
+        let mut g = y.wrapping_sub(u.wrapping_add(v) >> 2i32);
+        let mut r = v.wrapping_add(g);
+        let mut b = u.wrapping_add(g);
         *c0.add(i) = r;
         *c1.add(i) = g;
         *c2.add(i) = b;
-- 
2.43.0


From 5097b101c0d6449e00d1e1441c73a34afe0804d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 090/143] fix: allocate for a truncated tile-part no more than
 the stream still holds

---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index f5e2092..e51f8fd 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4329,7 +4329,7 @@ fn opj_j2k_read_sod(
                         "Tile part length size inconsistent with stream length\n",
                     );
                     let l_left = opj_stream_get_number_byte_left(p_stream);
-                    if l_left > 0 {
+                    if l_left > 0 || p_stream.has_length() {
                         l_available = l_left as OPJ_UINT32;
                     }
                 }
-- 
2.43.0


From 87313b787bbc7b8c525b87dc598905a8b06403ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 091/143] fix: decode again only into an image whose components
 are in codestream order

---
 openjp2-rs/src/j2k.rs    | 23 +++++++++++++++++++++++
 openjp2-rs/src/stream.rs |  4 ++++
 2 files changed, 27 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e51f8fd..cc3a55c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12019,6 +12019,21 @@ fn opj_j2k_move_data_from_codec_to_output_image(
     }
 }
 
+// Whether the components of the image are those of the codestream, in the same order.
+// Decoding a selection of components replaces those of the image.
+unsafe fn opj_j2k_has_codestream_components(p_j2k: &opj_j2k, p_image: &opj_image) -> bool {
+    unsafe {
+        let selected = p_j2k.m_specific_param.m_decoder.m_numcomps_to_decode > 0;
+        (0..(*p_j2k.m_private_image).numcomps as usize).all(|compno| {
+            let comp = &*p_image.comps.add(compno);
+            let codestream = &*(*p_j2k.m_private_image).comps.add(compno);
+            comp.dx == codestream.dx
+                && comp.dy == codestream.dy
+                && (!selected || (comp.prec, comp.sgnd) == (codestream.prec, codestream.sgnd))
+        })
+    }
+}
+
 pub(crate) fn opj_j2k_decode(
     mut p_j2k: &mut opj_j2k,
     mut p_stream: &mut Stream,
@@ -12034,6 +12049,10 @@ pub(crate) fn opj_j2k_decode(
             );
             return 0i32;
         }
+        if !opj_j2k_has_codestream_components(p_j2k, p_image) {
+            event_msg!(p_manager, EVT_ERROR, "Image has other components than codestream.\n",);
+            return 0i32;
+        }
         // Heuristics to detect sequence opj_read_header(), opj_set_decoded_resolution_factor()
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
@@ -12098,6 +12117,10 @@ pub(crate) fn opj_j2k_get_tile(
             event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
             return 0i32;
         }
+        if !opj_j2k_has_codestream_components(p_j2k, p_image) {
+            event_msg!(p_manager, EVT_ERROR, "Image has other components than codestream.\n",);
+            return 0i32;
+        }
         if tile_index >= p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th) {
             event_msg!(
                 p_manager,
diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index ef0e8b5..c3df560 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -393,6 +393,10 @@ impl Stream {
         self.m_byte_offset
     }
 
+    pub fn has_length(&self) -> bool {
+        self.m_stream_length != 0
+    }
+
     pub fn get_bytes_left(&self) -> i64 {
         log::trace!("-- byte_left(), offset={}", self.m_byte_offset);
         let nb = if self.m_stream_length != 0 {
-- 
2.43.0


From b3fbfdc7ae1479ccead89aec087a4fc492e131e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 092/143] fix: decode tiles whose packets have no bodies and
 packed headers

---
 openjp2-rs/src/j2k.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index cc3a55c..afeca05 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4390,7 +4390,15 @@ fn opj_j2k_read_sod(
                 return 0i32;
             }
         } else {
-            l_sot_length_pb_detected = 1i32
+            l_sot_length_pb_detected = 1i32;
+            if (*l_current_data).is_null() {
+                // no packet data, but there may be packed packet headers
+                *l_current_data = opj_malloc(2) as *mut OPJ_BYTE;
+                if (*l_current_data).is_null() {
+                    event_msg!(p_manager, EVT_ERROR, "Not enough memory to decode tile\n",);
+                    return 0i32;
+                }
+            }
         }
         // Index
         l_cstr_index = p_j2k.cstr_index;
-- 
2.43.0


From 54f069b9dedac5aa562e0899f2395f0526d7bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 093/143] fix: a COC marker has priority over a COD marker
 which follows it

---
 openjp2-rs/src/j2k.rs   | 19 ++++++++++++++++++-
 openjp2-rs/src/types.rs |  2 ++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index afeca05..1489623 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -1791,9 +1791,13 @@ fn opj_j2k_read_cod(
             return 0i32;
         }
         p_header_size = (p_header_size as core::ffi::c_uint).wrapping_sub(5u32) as OPJ_UINT32;
+        // A COC of the same header has priority, even when it came first
+        let l_own = (*(*l_tcp).tccps).coc.then(|| *(*l_tcp).tccps);
         i = 0 as OPJ_UINT32;
         while i < (*l_image).numcomps {
-            (*(*l_tcp).tccps.offset(i as isize)).csty = (*l_tcp).csty & 0x1u32;
+            if i == 0 || !(*(*l_tcp).tccps.offset(i as isize)).coc {
+                (*(*l_tcp).tccps.offset(i as isize)).csty = (*l_tcp).csty & 0x1u32;
+            }
             i += 1;
         }
         if opj_j2k_read_SPCod_SPCoc(
@@ -1813,6 +1817,9 @@ fn opj_j2k_read_cod(
         }
         // Apply the coding style to other components of the current tile or the m_default_tcp
         opj_j2k_copy_tile_component_parameters(p_j2k);
+        if let Some(l_own) = l_own {
+            *(*l_tcp).tccps = l_own;
+        }
         // Index
         1i32
     }
@@ -2094,6 +2101,7 @@ fn opj_j2k_read_coc(
             event_msg!(p_manager, EVT_ERROR, "Error reading COC marker\n",);
             return 0i32;
         }
+        (*(*l_tcp).tccps.offset(l_comp_no as isize)).coc = true;
         1i32
     }
 }
@@ -8820,6 +8828,10 @@ fn opj_j2k_copy_default_tcp_and_create_tcd(
                 (*l_default_tcp).tccps as *const core::ffi::c_void,
                 l_tccp_size as usize,
             );
+            // What the main header says gives way to what the tile-part header says
+            for l_compno in 0..(*l_image).numcomps as usize {
+                (*l_current_tccp.add(l_compno)).coc = false;
+            }
             // Move to next tile cp
             l_tcp = l_tcp.offset(1);
             i += 1;
@@ -10719,6 +10731,11 @@ fn opj_j2k_copy_tile_component_parameters(mut p_j2k: &mut opj_j2k) {
             .wrapping_mul(core::mem::size_of::<OPJ_UINT32>() as OPJ_UINT32);
         i = 1 as OPJ_UINT32;
         while i < (*p_j2k.m_private_image).numcomps {
+            if (*l_copied_tccp).coc {
+                l_copied_tccp = l_copied_tccp.offset(1);
+                i += 1;
+                continue;
+            }
             (*l_copied_tccp).numresolutions = (*l_ref_tccp).numresolutions;
             (*l_copied_tccp).cblkw = (*l_ref_tccp).cblkw;
             (*l_copied_tccp).cblkh = (*l_ref_tccp).cblkh;
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 9093a14..9982665 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -436,6 +436,8 @@ pub(crate) struct opj_tccp {
     pub prcw: [OPJ_UINT32; 33],
     pub prch: [OPJ_UINT32; 33],
     pub m_dc_level_shift: OPJ_INT32,
+    /// coding style from a COC marker of the header being read
+    pub coc: bool,
 }
 pub(crate) type opj_tccp_t = opj_tccp;
 
-- 
2.43.0


From 40ca45d42e34ba59251d7bbf39c17dba10d64587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 094/143] fix: a QCC marker has priority over a QCD marker
 which follows it

---
 openjp2-rs/src/j2k.rs   | 24 ++++++++++++++++++++++++
 openjp2-rs/src/types.rs |  2 ++
 2 files changed, 26 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 1489623..c31325b 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -2203,6 +2203,15 @@ fn opj_j2k_read_qcd(
     // preconditions
 
     assert!(!p_header_data.is_null());
+    // A QCC of the same header has priority, even when it came first
+    let l_tcp = unsafe {
+        if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH {
+            p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize)
+        } else {
+            p_j2k.m_specific_param.m_decoder.m_default_tcp
+        }
+    };
+    let l_own = unsafe { (*(*l_tcp).tccps).qcc.then(|| *(*l_tcp).tccps) };
     if opj_j2k_read_SQcd_SQcc(p_j2k, 0 as OPJ_UINT32, p_header_data, &mut p_header_size, p_manager)
         == 0
     {
@@ -2216,6 +2225,9 @@ fn opj_j2k_read_qcd(
     // Apply the quantization parameters to other components of the current tile or the
     // m_default_tcp
     opj_j2k_copy_tile_quantization_parameters(p_j2k);
+    if let Some(l_own) = l_own {
+        unsafe { *(*l_tcp).tccps = l_own };
+    }
     1i32
 }
 
@@ -2433,6 +2445,12 @@ fn opj_j2k_read_qcc(
             event_msg!(p_manager, EVT_ERROR, "Error reading QCC marker\n",);
             return 0i32;
         }
+        let l_tcp = if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH {
+            p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize)
+        } else {
+            p_j2k.m_specific_param.m_decoder.m_default_tcp
+        };
+        (*(*l_tcp).tccps.offset(l_comp_no as isize)).qcc = true;
         1i32
     }
 }
@@ -8831,6 +8849,7 @@ fn opj_j2k_copy_default_tcp_and_create_tcd(
             // What the main header says gives way to what the tile-part header says
             for l_compno in 0..(*l_image).numcomps as usize {
                 (*l_current_tccp.add(l_compno)).coc = false;
+                (*l_current_tccp.add(l_compno)).qcc = false;
             }
             // Move to next tile cp
             l_tcp = l_tcp.offset(1);
@@ -11104,6 +11123,11 @@ fn opj_j2k_copy_tile_quantization_parameters(mut p_j2k: &mut opj_j2k) {
             .wrapping_mul(core::mem::size_of::<opj_stepsize_t>()) as OPJ_UINT32;
         i = 1 as OPJ_UINT32;
         while i < (*p_j2k.m_private_image).numcomps {
+            if (*l_copied_tccp).qcc {
+                l_copied_tccp = l_copied_tccp.offset(1);
+                i += 1;
+                continue;
+            }
             (*l_copied_tccp).qntsty = (*l_ref_tccp).qntsty;
             (*l_copied_tccp).numgbits = (*l_ref_tccp).numgbits;
             memcpy(
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 9982665..f242c8b 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -438,6 +438,8 @@ pub(crate) struct opj_tccp {
     pub m_dc_level_shift: OPJ_INT32,
     /// coding style from a COC marker of the header being read
     pub coc: bool,
+    /// quantization from a QCC marker of the header being read
+    pub qcc: bool,
 }
 pub(crate) type opj_tccp_t = opj_tccp;
 
-- 
2.43.0


From 94c18373ef7492f2f3b622df0de40e0e227dd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 095/143] fix: skip unknown marker segments by their length

---
 openjp2-rs/src/j2k.rs | 113 ++++++++++++++++++++++++++++--------------
 1 file changed, 75 insertions(+), 38 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index c31325b..c48ac2e 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -358,6 +358,11 @@ impl J2KMarker {
         }
     }
 
+    /// The markers 0xff30 to 0xff3f are followed by no marker segment.
+    fn has_segment(&self) -> bool {
+        !matches!(self, Self::UNK(0xff30..=0xff3f))
+    }
+
     pub fn states(&self) -> J2KState {
         match self {
             Self::SOT => J2KState::MH | J2KState::TPHSOT,
@@ -415,6 +420,8 @@ impl J2KMarker {
             Self::CPF => opj_j2k_read_cpf(p_j2k, p_header_data, p_header_size, p_manager),
             Self::MCC => opj_j2k_read_mcc(p_j2k, p_header_data, p_header_size, p_manager),
             Self::MCO => opj_j2k_read_mco(p_j2k, p_header_data, p_header_size, p_manager),
+            // What an unknown marker segment contains is of no interest
+            Self::UNK(_) if !self.is_invalid() => 1i32,
             _ => {
                 // No handler for this marker.
                 event_msg!(&mut *p_manager, EVT_ERROR, "No handler for unknown marker.\n",);
@@ -5070,13 +5077,50 @@ fn opj_j2k_read_unk(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        let mut l_unknown_marker: OPJ_UINT32 = 0;
-        let mut l_size_unk = 2 as OPJ_UINT32;
-        let mut l_marker_handler = J2KMarker::UNK(0);
         // preconditions
 
         event_msg!(p_manager, EVT_WARNING, "Unknown marker\n",);
-        loop {
+        while output_marker.is_unknown() {
+            let mut l_size_unk = 0 as OPJ_UINT32;
+            if output_marker.has_segment() {
+                // Try to read the size of the unknown marker segment, and skip what it contains
+                if opj_stream_read_data(
+                    p_stream,
+                    p_j2k.m_specific_param.m_decoder.m_header_data,
+                    2 as OPJ_SIZE_T,
+                    p_manager,
+                ) != 2
+                {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return 0i32;
+                }
+                opj_read_bytes(
+                    p_j2k.m_specific_param.m_decoder.m_header_data,
+                    &mut l_size_unk,
+                    2 as OPJ_UINT32,
+                );
+                if l_size_unk < 2u32 {
+                    event_msg!(p_manager, EVT_ERROR, "Invalid marker size\n",);
+                    return 0i32;
+                }
+                let l_skip = (l_size_unk - 2) as OPJ_OFF_T;
+                if l_skip != 0 && opj_stream_skip(p_stream, l_skip, p_manager) != l_skip {
+                    event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                    return 0i32;
+                }
+            }
+            l_size_unk += 2;
+            // Add the marker to the codestream index
+            if opj_j2k_add_mhmarker(
+                p_j2k.cstr_index,
+                J2KMarker::UNK(0),
+                (opj_stream_tell(p_stream) as OPJ_UINT32).wrapping_sub(l_size_unk) as OPJ_OFF_T,
+                l_size_unk,
+            ) == 0
+            {
+                event_msg!(p_manager, EVT_ERROR, "Not enough memory to add mh marker\n",);
+                return 0i32;
+            }
             // Try to read 2 bytes (the next marker ID) from stream and copy them into the buffer
             if opj_stream_read_data(
                 p_stream,
@@ -5089,43 +5133,18 @@ fn opj_j2k_read_unk(
                 return 0i32;
             }
             // read 2 bytes as the new marker ID
-            opj_read_bytes(
-                p_j2k.m_specific_param.m_decoder.m_header_data,
-                &mut l_unknown_marker,
-                2 as OPJ_UINT32,
-            );
-            if l_unknown_marker < 0xFF00u32 {
-                continue;
-            }
-            // Get the marker handler from the marker ID
-            l_marker_handler = J2KMarker::from(l_unknown_marker);
-            if p_j2k.m_specific_param.m_decoder.m_state & l_marker_handler.states()
-                == J2KState::NONE
-            {
-                event_msg!(p_manager, EVT_ERROR, "Marker is not compliant with its position\n",);
+            *output_marker =
+                J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
+            if output_marker.is_invalid() {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "A marker ID was expected (0xff--) instead of %.8x\n",
+                    output_marker.as_u32(),
+                );
                 return 0i32;
-            } else if !l_marker_handler.is_unknown() {
-                // Add the marker to the codestream index
-                if l_marker_handler != J2KMarker::SOT {
-                    let mut res = opj_j2k_add_mhmarker(
-                        p_j2k.cstr_index,
-                        J2KMarker::UNK(0),
-                        (opj_stream_tell(p_stream) as OPJ_UINT32).wrapping_sub(l_size_unk)
-                            as OPJ_OFF_T,
-                        l_size_unk,
-                    );
-                    if res == 0i32 {
-                        event_msg!(p_manager, EVT_ERROR, "Not enough memory to add mh marker\n",);
-                        return 0i32;
-                    }
-                }
-                break;
-            // next marker is known and well located
-            } else {
-                l_size_unk = (l_size_unk as core::ffi::c_uint).wrapping_add(2u32) as OPJ_UINT32
             }
         }
-        *output_marker = l_marker_handler;
         1i32
     }
 }
@@ -9319,6 +9338,24 @@ fn opj_j2k_read_next_tile_header(
                 if opj_stream_get_number_byte_left(p_stream) == 0i64 {
                     p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
                     break;
+                } else if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH
+                    && !l_current_marker.has_segment()
+                {
+                    // Nothing but the marker to skip
+                    p_j2k.m_specific_param.m_decoder.m_sot_length =
+                        p_j2k.m_specific_param.m_decoder.m_sot_length.wrapping_sub(2);
+                    if opj_stream_read_data(
+                        p_stream,
+                        p_j2k.m_specific_param.m_decoder.m_header_data,
+                        2 as OPJ_SIZE_T,
+                        p_manager,
+                    ) != 2
+                    {
+                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                        return false;
+                    }
+                    l_current_marker =
+                        J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
                 } else {
                     // Try to read 2 bytes (the marker size) from stream and copy them into the
                     // buffer
-- 
2.43.0


From 74fbfb4163ad5e42197799bbcc65e6677ab25bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 096/143] fix: progression order changes: of a tile instead of
 the main header's, before COD, of all components

---
 openjp2-rs/src/j2k.rs   | 12 +++++++++---
 openjp2-rs/src/types.rs |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index c48ac2e..8a30b1d 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -2769,7 +2769,9 @@ fn opj_j2k_read_poc(
         } else {
             p_j2k.m_specific_param.m_decoder.m_default_tcp
         };
-        l_old_poc_nb = if (*l_tcp).POC {
+        let l_in_tile = p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH;
+        // The first of a tile replaces what the main header says
+        l_old_poc_nb = if (*l_tcp).POC && (!l_in_tile || (*l_tcp).tile_POC) {
             (*l_tcp).numpocs.wrapping_add(1u32)
         } else {
             0u32
@@ -2782,6 +2784,7 @@ fn opj_j2k_read_poc(
         }
         // now poc is in use.
         (*l_tcp).POC = true; // RSpoc_i
+        (*l_tcp).tile_POC = l_in_tile;
         l_current_poc =
             &mut *(*l_tcp).pocs.as_mut_ptr().offset(l_old_poc_nb as isize) as *mut opj_poc_t; // CSpoc_i
         i = l_old_poc_nb; // LYEpoc_i
@@ -2791,8 +2794,7 @@ fn opj_j2k_read_poc(
             opj_read_bytes(p_header_data, &mut (*l_current_poc).compno0, l_comp_room);
             p_header_data = p_header_data.offset(l_comp_room as isize);
             opj_read_bytes(p_header_data, &mut (*l_current_poc).layno1, 2 as OPJ_UINT32);
-            // make sure layer end is in acceptable bounds
-            (*l_current_poc).layno1 = opj_uint_min((*l_current_poc).layno1, (*l_tcp).numlayers); // REpoc_i
+            // the number of layers is not known before the COD marker was read // REpoc_i
             p_header_data = p_header_data.offset(2); // CEpoc_i
             opj_read_bytes(p_header_data, &mut (*l_current_poc).resno1, 1 as OPJ_UINT32); // Ppoc_i
             p_header_data = p_header_data.offset(1);
@@ -2801,6 +2803,10 @@ fn opj_j2k_read_poc(
             opj_read_bytes(p_header_data, &mut l_tmp, 1 as OPJ_UINT32);
             p_header_data = p_header_data.offset(1);
             (*l_current_poc).prg = l_tmp as OPJ_PROG_ORDER;
+            // zero stands for the largest number of components
+            if (*l_current_poc).compno1 == 0 {
+                (*l_current_poc).compno1 = l_nb_comp;
+            }
             // make sure comp is in acceptable bounds
             (*l_current_poc).compno1 = opj_uint_min((*l_current_poc).compno1, l_nb_comp);
             l_current_poc = l_current_poc.offset(1);
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index f242c8b..b6d0935 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -392,6 +392,8 @@ pub(crate) struct opj_tcp {
     pub cod: bool,
     pub ppt: bool,
     pub POC: bool,
+    /// progression order changes from a tile-part header
+    pub tile_POC: bool,
 }
 pub(crate) type opj_tcp_t = opj_tcp;
 
-- 
2.43.0


From dea08ce877843acfe7aabc9f852a6e697d571394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 097/143] fix: packed packet headers of the main header belong
 to the tile-part they are listed for

---
 openjp2-rs/src/j2k.rs   | 290 ++++++++++++++++------------------------
 openjp2-rs/src/t2.rs    |  10 +-
 openjp2-rs/src/types.rs |  14 +-
 3 files changed, 121 insertions(+), 193 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 8a30b1d..6200b4c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3158,182 +3158,92 @@ fn opj_j2k_read_ppm(
 //
 // @param       p_cp      main coding parameters.
 // @param       p_manager the user event manager.
-fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
-    unsafe {
-        let mut i: OPJ_UINT32 = 0;
-        let mut l_ppm_data_size: OPJ_UINT32 = 0;
-        let mut l_N_ppm_remaining: OPJ_UINT32 = 0;
-        // preconditions
-
-        assert!(!p_cp.is_null());
-        assert!((*p_cp).ppm_buffer.is_null());
-        if !(*p_cp).ppm {
-            return 1i32;
-        }
-
-        l_ppm_data_size = 0u32;
-        l_N_ppm_remaining = 0u32;
-        i = 0u32;
-        while i < (*p_cp).ppm_markers_count {
-            if !(*(*p_cp).ppm_markers.offset(i as isize)).m_data.is_null() {
-                // standard doesn't seem to require contiguous Zppm
-                let mut l_N_ppm: OPJ_UINT32 = 0;
-                let mut l_data_size = (*(*p_cp).ppm_markers.offset(i as isize)).m_data_size;
-                let mut l_data: *const OPJ_BYTE = (*(*p_cp).ppm_markers.offset(i as isize)).m_data;
-                if l_N_ppm_remaining >= l_data_size {
-                    l_N_ppm_remaining = (l_N_ppm_remaining as core::ffi::c_uint)
-                        .wrapping_sub(l_data_size)
-                        as OPJ_UINT32;
-                    l_data_size = 0u32
-                } else {
-                    l_data = l_data.offset(l_N_ppm_remaining as isize);
-                    l_data_size = (l_data_size as core::ffi::c_uint).wrapping_sub(l_N_ppm_remaining)
-                        as OPJ_UINT32;
-                    l_N_ppm_remaining = 0u32
-                }
-                if l_data_size > 0u32 {
-                    loop {
-                        // read Nppm
-                        if l_data_size < 4u32 {
-                            // clean up to be done on l_cp destruction
-                            event_msg!(p_manager, EVT_ERROR, "Not enough bytes to read Nppm\n",);
-                            return 0i32;
-                        }
-                        opj_read_bytes(l_data, &mut l_N_ppm, 4 as OPJ_UINT32);
-                        l_data = l_data.offset(4);
-                        l_data_size -= 4;
-
-                        if l_ppm_data_size > u32::MAX - l_N_ppm {
-                            event_msg!(p_manager, EVT_ERROR, "Too large value for Nppm\n",);
-                            return 0i32;
-                        }
-                        l_ppm_data_size += l_N_ppm;
-                        if l_data_size >= l_N_ppm {
-                            l_data_size = (l_data_size as core::ffi::c_uint).wrapping_sub(l_N_ppm)
-                                as OPJ_UINT32;
-                            l_data = l_data.offset(l_N_ppm as isize)
-                        } else {
-                            l_N_ppm_remaining = l_N_ppm.wrapping_sub(l_data_size);
-                            l_data_size = 0u32
-                        }
-                        if l_data_size == 0u32 {
-                            break;
-                        }
-                    }
-                }
-            }
-            i += 1;
-        }
-        if l_N_ppm_remaining != 0u32 {
-            // clean up to be done on l_cp destruction
+fn opj_j2k_merge_ppm(p_j2k: &mut opj_j2k, p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
+    let p_cp = &mut p_j2k.m_cp;
+    if !p_cp.ppm {
+        return 1i32;
+    }
+    // standard doesn't seem to require contiguous Zppm
+    let mut l_data = vec![];
+    unsafe {
+        for i in 0..p_cp.ppm_markers_count as usize {
+            let l_marker = &mut *p_cp.ppm_markers.add(i);
+            if !l_marker.m_data.is_null() {
+                l_data.extend_from_slice(std::slice::from_raw_parts(
+                    l_marker.m_data,
+                    l_marker.m_data_size as usize,
+                ));
+                opj_free(l_marker.m_data as *mut core::ffi::c_void);
+                l_marker.m_data = std::ptr::null_mut::<OPJ_BYTE>();
+            }
+        }
+        p_cp.ppm_markers_count = 0u32;
+        opj_free(p_cp.ppm_markers as *mut core::ffi::c_void);
+        p_cp.ppm_markers = std::ptr::null_mut::<opj_ppx>();
+    }
+    // The headers of the packets of one tile-part after the other, each with their size
+    let mut l_pos = 0;
+    while l_pos < l_data.len() {
+        let Some(l_size) = l_data.get(l_pos..l_pos + 4) else {
+            event_msg!(p_manager, EVT_ERROR, "Not enough bytes to read Nppm\n",);
+            return 0i32;
+        };
+        let l_N_ppm = u32::from_be_bytes([l_size[0], l_size[1], l_size[2], l_size[3]]) as usize;
+        l_pos += 4;
+        if l_N_ppm > l_data.len() - l_pos {
             event_msg!(p_manager, EVT_ERROR, "Corrupted PPM markers\n",);
             return 0i32;
         }
-        (*p_cp).ppm_buffer = opj_malloc(l_ppm_data_size as size_t) as *mut OPJ_BYTE;
-        if (*p_cp).ppm_buffer.is_null() {
-            event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPM marker\n",);
-            return 0i32;
+        p_j2k.ppm_parts.push(l_pos..l_pos + l_N_ppm);
+        l_pos += l_N_ppm;
+    }
+    p_j2k.ppm_data = l_data;
+    1i32
+}
+// *
+// Finds the packet headers which the PPM markers hold for a tile-part, as if they
+// came from PPT markers.
+//
+// @param       p_sot_pos               position of the SOT marker.
+// @param       p_part                  index of the tile-part in its tile.
+fn opj_j2k_use_ppm(
+    p_j2k: &mut opj_j2k,
+    p_sot_pos: OPJ_OFF_T,
+    p_part: OPJ_UINT32,
+    p_manager: &mut opj_event_mgr,
+) -> bool {
+    // Which tile-part of the codestream is it? Only those next to known ones are read
+    let l_known = &mut p_j2k.ppm_sot_pos;
+    let l_index = match l_known.binary_search(&p_sot_pos) {
+        Ok(l_index) => l_index,
+        Err(l_index) => {
+            l_known.insert(l_index, p_sot_pos);
+            l_index
         }
-        (*p_cp).ppm_len = l_ppm_data_size;
-        l_ppm_data_size = 0u32;
-        l_N_ppm_remaining = 0u32;
-        i = 0u32;
-        while i < (*p_cp).ppm_markers_count {
-            if !(*(*p_cp).ppm_markers.offset(i as isize)).m_data.is_null() {
-                // standard doesn't seem to require contiguous Zppm
-                let mut l_N_ppm_0: OPJ_UINT32 = 0;
-                let mut l_data_size_0 = (*(*p_cp).ppm_markers.offset(i as isize)).m_data_size;
-                let mut l_data_0: *const OPJ_BYTE =
-                    (*(*p_cp).ppm_markers.offset(i as isize)).m_data;
-                if l_N_ppm_remaining >= l_data_size_0 {
-                    memcpy(
-                        (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                            as *mut core::ffi::c_void,
-                        l_data_0 as *const core::ffi::c_void,
-                        l_data_size_0 as usize,
-                    );
-                    l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                        .wrapping_add(l_data_size_0)
-                        as OPJ_UINT32;
-                    l_N_ppm_remaining = (l_N_ppm_remaining as core::ffi::c_uint)
-                        .wrapping_sub(l_data_size_0)
-                        as OPJ_UINT32;
-                    l_data_size_0 = 0u32
-                } else {
-                    memcpy(
-                        (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                            as *mut core::ffi::c_void,
-                        l_data_0 as *const core::ffi::c_void,
-                        l_N_ppm_remaining as usize,
-                    );
-                    l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                        .wrapping_add(l_N_ppm_remaining)
-                        as OPJ_UINT32;
-                    l_data_0 = l_data_0.offset(l_N_ppm_remaining as isize);
-                    l_data_size_0 = (l_data_size_0 as core::ffi::c_uint)
-                        .wrapping_sub(l_N_ppm_remaining)
-                        as OPJ_UINT32;
-                    l_N_ppm_remaining = 0u32
-                }
-                if l_data_size_0 > 0u32 {
-                    loop {
-                        // read Nppm
-                        if l_data_size_0 < 4u32 {
-                            // clean up to be done on l_cp destruction
-                            event_msg!(p_manager, EVT_ERROR, "Not enough bytes to read Nppm\n",);
-                            return 0i32;
-                        }
-                        opj_read_bytes(l_data_0, &mut l_N_ppm_0, 4 as OPJ_UINT32);
-                        l_data_0 = l_data_0.offset(4);
-                        l_data_size_0 = (l_data_size_0 as core::ffi::c_uint).wrapping_sub(4u32)
-                            as OPJ_UINT32 as OPJ_UINT32;
-                        if l_data_size_0 >= l_N_ppm_0 {
-                            memcpy(
-                                (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                                    as *mut core::ffi::c_void,
-                                l_data_0 as *const core::ffi::c_void,
-                                l_N_ppm_0 as usize,
-                            );
-                            l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                                .wrapping_add(l_N_ppm_0)
-                                as OPJ_UINT32;
-                            l_data_size_0 = (l_data_size_0 as core::ffi::c_uint)
-                                .wrapping_sub(l_N_ppm_0)
-                                as OPJ_UINT32;
-                            l_data_0 = l_data_0.offset(l_N_ppm_0 as isize)
-                        } else {
-                            memcpy(
-                                (*p_cp).ppm_buffer.offset(l_ppm_data_size as isize)
-                                    as *mut core::ffi::c_void,
-                                l_data_0 as *const core::ffi::c_void,
-                                l_data_size_0 as usize,
-                            );
-                            l_ppm_data_size = (l_ppm_data_size as core::ffi::c_uint)
-                                .wrapping_add(l_data_size_0)
-                                as OPJ_UINT32;
-                            l_N_ppm_remaining = l_N_ppm_0.wrapping_sub(l_data_size_0);
-                            l_data_size_0 = 0u32
-                        }
-                        if l_data_size_0 == 0u32 {
-                            break;
-                        }
-                    }
-                }
-                opj_free(
-                    (*(*p_cp).ppm_markers.offset(i as isize)).m_data as *mut core::ffi::c_void,
-                );
-                let fresh13 = &mut (*(*p_cp).ppm_markers.offset(i as isize)).m_data;
-                *fresh13 = std::ptr::null_mut::<OPJ_BYTE>();
-                (*(*p_cp).ppm_markers.offset(i as isize)).m_data_size = 0u32
+    };
+    unsafe {
+        if p_j2k.m_specific_param.m_decoder.m_skip_data {
+            return true;
+        }
+        let l_tcp = p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize);
+        (*l_tcp).ppt = true;
+        match p_j2k.ppm_parts.get(l_index) {
+            Some(l_range) if l_range.is_empty() => true,
+            Some(l_range) => {
+                let l_data = &mut p_j2k.ppm_data[l_range.clone()];
+                opj_j2k_add_ppt(
+                    l_tcp,
+                    p_part,
+                    l_data.as_mut_ptr(),
+                    l_data.len() as OPJ_UINT32,
+                    p_manager,
+                ) != 0
+            }
+            None => {
+                event_msg!(p_manager, EVT_ERROR, "No packet headers for a tile-part in PPM\n",);
+                false
             }
-            i += 1;
         }
-        (*p_cp).ppm_data = (*p_cp).ppm_buffer;
-        (*p_cp).ppm_data_size = (*p_cp).ppm_len;
-        (*p_cp).ppm_markers_count = 0u32;
-        opj_free((*p_cp).ppm_markers as *mut core::ffi::c_void);
-        (*p_cp).ppm_markers = std::ptr::null_mut::<opj_ppx>();
-        1i32
     }
 }
 // *
@@ -3379,6 +3289,25 @@ fn opj_j2k_read_ppt(
         opj_read_bytes(p_header_data, &mut l_Z_ppt, 1 as OPJ_UINT32);
         p_header_data = p_header_data.offset(1);
         p_header_size = p_header_size.wrapping_sub(1);
+        opj_j2k_add_ppt(l_tcp, l_Z_ppt, p_header_data, p_header_size, p_manager)
+    }
+}
+// *
+// Keeps the contents of a PPT marker
+//
+// @param       l_tcp                   the tile.
+// @param       l_Z_ppt                 its index.
+// @param       p_header_data           the packet headers.
+// @param       p_header_size           their size.
+// @param       p_manager               the user event manager.
+fn opj_j2k_add_ppt(
+    l_tcp: *mut opj_tcp_t,
+    l_Z_ppt: OPJ_UINT32,
+    p_header_data: *mut OPJ_BYTE,
+    p_header_size: OPJ_UINT32,
+    p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    unsafe {
         // check allocation needed
         if (*l_tcp).ppt_markers.is_null() {
             // first PPT marker
@@ -3476,7 +3405,7 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
             // can't overflow, max 256 markers of max 65536 bytes
         }
         (*p_tcp).ppt_buffer = opj_malloc(l_ppt_data_size as size_t) as *mut OPJ_BYTE;
-        if (*p_tcp).ppt_buffer.is_null() {
+        if (*p_tcp).ppt_buffer.is_null() && l_ppt_data_size != 0 {
             event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPT marker\n",);
             return 0i32;
         }
@@ -8674,7 +8603,7 @@ fn opj_j2k_read_header_procedure(
             event_msg!(p_manager, EVT_ERROR, "required QCD marker not found in main header\n",);
             return 0i32;
         }
-        if opj_j2k_merge_ppm(&mut p_j2k.m_cp, p_manager) == 0 {
+        if opj_j2k_merge_ppm(p_j2k, p_manager) == 0 {
             event_msg!(p_manager, EVT_ERROR, "Failed to merge PPM data\n",);
             return 0i32;
         }
@@ -9122,7 +9051,7 @@ fn opj_j2k_tcp_data_destroy(mut p_tcp: *mut opj_tcp_t) {
 // @param       p_cp            the coding parameter to destroy.
 fn opj_j2k_cp_destroy(mut p_cp: *mut opj_cp_t) {
     unsafe {
-        let mut l_nb_tiles: OPJ_UINT32 = 0; // ppm_data belongs to the allocated buffer pointed by ppm_buffer
+        let mut l_nb_tiles: OPJ_UINT32 = 0;
         let mut l_current_tile = std::ptr::null_mut::<opj_tcp_t>();
         if p_cp.is_null() {
             return;
@@ -9156,9 +9085,6 @@ fn opj_j2k_cp_destroy(mut p_cp: *mut opj_cp_t) {
             opj_free((*p_cp).ppm_markers as *mut core::ffi::c_void);
             (*p_cp).ppm_markers = std::ptr::null_mut::<opj_ppx>()
         }
-        opj_free((*p_cp).ppm_buffer as *mut core::ffi::c_void);
-        (*p_cp).ppm_buffer = std::ptr::null_mut::<OPJ_BYTE>();
-        (*p_cp).ppm_data = std::ptr::null_mut::<OPJ_BYTE>();
         opj_free((*p_cp).comment as *mut core::ffi::c_void);
         (*p_cp).comment = std::ptr::null_mut::<OPJ_CHAR>();
         if !(*p_cp).m_is_decoder {
@@ -9516,6 +9442,15 @@ fn opj_j2k_read_next_tile_header(
                                 p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos =
                                     sot_pos as OPJ_OFF_T
                             }
+                            if p_j2k.m_cp.ppm {
+                                l_tcp =
+                                    p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize);
+                                let l_part = (*l_tcp).m_current_tile_part_number as OPJ_UINT32;
+                                if !opj_j2k_use_ppm(p_j2k, sot_pos as OPJ_OFF_T, l_part, p_manager)
+                                {
+                                    return false;
+                                }
+                            }
                         }
                         if p_j2k.m_specific_param.m_decoder.m_skip_data {
                             // Skip the rest of the tile part header
@@ -10411,6 +10346,9 @@ impl opj_j2k {
                 ihdr_w: 0,
                 ihdr_h: 0,
                 dump_state: 0,
+                ppm_data: vec![],
+                ppm_parts: vec![],
+                ppm_sot_pos: vec![],
             }
         }
     }
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 8a77575..b7ee3ce 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1033,7 +1033,6 @@ unsafe fn opj_t2_read_packet_header(
     let mut l_header_length: OPJ_UINT32 = 0;
     let mut l_modified_length_ptr = std::ptr::null_mut::<OPJ_UINT32>();
     let mut l_current_data = p_src_data;
-    let mut l_cp = (*p_t2).cp;
     let mut l_bio = std::ptr::null_mut::<opj_bio_t>();
     let mut l_band = std::ptr::null_mut::<opj_tcd_band_t>();
     let mut l_cblk = std::ptr::null_mut::<opj_tcd_cblk_dec_t>();
@@ -1100,13 +1099,8 @@ unsafe fn opj_t2_read_packet_header(
         return 0i32;
     }
 
-    if (*l_cp).ppm {
-        // PPM
-        l_header_data_start = &mut (*l_cp).ppm_data; // Normal Case
-        l_header_data = *l_header_data_start;
-        l_modified_length_ptr = &mut (*l_cp).ppm_len
-    } else if (*p_tcp).ppt {
-        // PPT
+    if (*p_tcp).ppt {
+        // PPT, or PPM
         l_header_data_start = &mut (*p_tcp).ppt_data;
         l_header_data = *l_header_data_start;
         l_modified_length_ptr = &mut (*p_tcp).ppt_len
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index b6d0935..a79bc2e 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -334,6 +334,11 @@ pub(crate) struct opj_j2k {
     pub ihdr_w: OPJ_UINT32,
     pub ihdr_h: OPJ_UINT32,
     pub dump_state: core::ffi::c_uint,
+    /// contents of the PPM markers, and which part of it belongs to which tile-part
+    pub ppm_data: Vec<u8>,
+    pub ppm_parts: Vec<core::ops::Range<usize>>,
+    /// positions of the SOT markers, in codestream order
+    pub ppm_sot_pos: Vec<OPJ_OFF_T>,
 }
 
 #[derive(Copy, Clone)]
@@ -471,15 +476,6 @@ pub(crate) struct opj_cp {
     pub th: OPJ_UINT32,
     pub ppm_markers_count: OPJ_UINT32,
     pub ppm_markers: *mut opj_ppx,
-    pub ppm_data: *mut OPJ_BYTE,
-    pub ppm_len: OPJ_UINT32,
-    pub ppm_data_read: OPJ_UINT32,
-    pub ppm_data_current: *mut OPJ_BYTE,
-    pub ppm_buffer: *mut OPJ_BYTE,
-    pub ppm_data_first: *mut OPJ_BYTE,
-    pub ppm_data_size: OPJ_UINT32,
-    pub ppm_store: OPJ_INT32,
-    pub ppm_previous: OPJ_INT32,
     pub tcps: *mut opj_tcp_t,
     pub m_specific_param: C2RustUnnamed_0,
     pub strict: OPJ_BOOL,
-- 
2.43.0


From 5a3ffffb9c495a3fcce255f7f862e2dd8c5197b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 098/143] fix: read a tile with packed packet headers or
 progression order changes again

---
 openjp2-rs/src/j2k.rs | 27 ++++++++++++++++++++-------
 openjp2-rs/src/t2.rs  |  2 +-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 6200b4c..2208b88 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3801,6 +3801,12 @@ fn opj_j2k_read_sot(
       p_j2k.m_specific_param.m_decoder.m_skip_data = p_j2k.m_current_tile_number
         != p_j2k.m_specific_param.m_decoder.m_tile_ind_to_dec as OPJ_UINT32;
     }
+    if l_current_part == 0 && !p_j2k.m_specific_param.m_decoder.m_skip_data {
+      /* Forget what an earlier reading of this tile has left */
+      opj_j2k_tcp_ppt_destroy(l_tcp);
+      (*l_tcp).ppt = false;
+      (*l_tcp).tile_POC = false;
+    }
     /* Index */
     if !p_j2k.cstr_index.is_null() {
       assert!(!(*p_j2k.cstr_index).tile_index.is_null());
@@ -8965,14 +8971,9 @@ pub(crate) fn j2k_destroy_cstr_index(mut p_cstr_ind: *mut opj_codestream_index_t
 }
 
 // *
-// Destroys a tile coding parameter structure.
-//
-// @param       p_tcp           the tile coding parameter to destroy.
-fn opj_j2k_tcp_destroy(mut p_tcp: *mut opj_tcp_t) {
+// Destroys the packed packet headers of a tile.
+fn opj_j2k_tcp_ppt_destroy(p_tcp: *mut opj_tcp_t) {
     unsafe {
-        if p_tcp.is_null() {
-            return;
-        }
         if !(*p_tcp).ppt_markers.is_null() {
             let mut i: OPJ_UINT32 = 0;
             i = 0u32;
@@ -8992,6 +8993,18 @@ fn opj_j2k_tcp_destroy(mut p_tcp: *mut opj_tcp_t) {
             opj_free((*p_tcp).ppt_buffer as *mut core::ffi::c_void);
             (*p_tcp).ppt_buffer = std::ptr::null_mut::<OPJ_BYTE>()
         }
+    }
+}
+// *
+// Destroys a tile coding parameter structure.
+//
+// @param       p_tcp           the tile coding parameter to destroy.
+fn opj_j2k_tcp_destroy(mut p_tcp: *mut opj_tcp_t) {
+    unsafe {
+        if p_tcp.is_null() {
+            return;
+        }
+        opj_j2k_tcp_ppt_destroy(p_tcp);
         if !(*p_tcp).tccps.is_null() {
             opj_free((*p_tcp).tccps as *mut core::ffi::c_void);
             (*p_tcp).tccps = std::ptr::null_mut::<opj_tccp_t>()
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index b7ee3ce..fa0c8eb 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1014,7 +1014,7 @@ unsafe fn opj_t2_skip_packet(
 }
 
 unsafe fn opj_t2_read_packet_header(
-    mut p_t2: *mut opj_t2_t,
+    _p_t2: *mut opj_t2_t,
     mut p_tile: *mut opj_tcd_tile_t,
     mut p_tcp: *mut opj_tcp_t,
     mut p_pi: *mut opj_pi_iterator_t,
-- 
2.43.0


From 0b96d4458b76d3921eed0e07277970abd2b70b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 099/143] fix: skip a last tile-part whose length is not given

---
 openjp2-rs/src/j2k.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 2208b88..e98dbfd 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3736,6 +3736,7 @@ fn opj_j2k_read_sot(
     }
     /* USE_JPWL */
     /* Ref A.4.2: Psot could be equal zero if it is the last tile-part of the codestream.*/
+    p_j2k.m_specific_param.m_decoder.m_last_tile_part = 0;
     if l_tot_len == 0 {
       event_msg!(p_manager, EVT_INFO,
                       "Psot value of the current tile-part is equal to zero, we assuming it is the last tile-part of the codestream.\n");
@@ -9559,6 +9560,12 @@ fn opj_j2k_read_next_tile_header(
                         );
                     }
                 }
+            } else if p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0 {
+                // There is no other tile-part after the one to skip
+                p_j2k.m_specific_param.m_decoder.m_skip_data = false;
+                p_j2k.m_specific_param.m_decoder.m_can_decode = false;
+                l_current_marker = J2KMarker::EOC;
+                break;
             } else {
                 // Indicate we will try to read a new tile-part header
                 p_j2k.m_specific_param.m_decoder.m_skip_data = false;
-- 
2.43.0


From 6cd95ecb97191cce9a443dce07e46762f7db51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 100/143] fix: read a tile again by its index whose number of
 tile-parts is not given

---
 openjp2-rs/src/j2k.rs | 45 +++++++++++++------------------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e98dbfd..76d47bc 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11868,38 +11868,19 @@ fn opj_j2k_decode_one_tile(
         }
         // Move into the codestream to the first SOT used to decode the desired tile
         let l_tile_no_to_dec = p_j2k.m_specific_param.m_decoder.m_tile_ind_to_dec as OPJ_UINT32;
-        if !(*p_j2k.cstr_index).tile_index.is_null()
-            && !(*(*p_j2k.cstr_index).tile_index).tp_index.is_null()
-        {
-            if (*(*p_j2k.cstr_index)
-                .tile_index
-                .offset(l_tile_no_to_dec as isize))
-            .nb_tps
-                == 0
-            {
-                // the index for this tile has not been built,
-                //  so move to the last SOT read
-                if opj_stream_seek(
-                    p_stream,
-                    p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos + 2i64,
-                    p_manager,
-                ) == 0
-                {
-                    event_msg!(p_manager, EVT_ERROR, "Problem with seek function\n",);
-                    return 0i32;
-                }
-            } else if opj_stream_seek(
-                p_stream,
-                (*(*(*p_j2k.cstr_index)
-                    .tile_index
-                    .offset(l_tile_no_to_dec as isize))
-                .tp_index
-                .offset(0))
-                .start_pos
-                    + 2i64,
-                p_manager,
-            ) == 0
-            {
+        let l_tp_index = (*(*p_j2k.cstr_index)
+            .tile_index
+            .offset(l_tile_no_to_dec as isize))
+        .tp_index;
+        let l_sot_pos = if !l_tp_index.is_null() && (*l_tp_index).start_pos != 0 {
+            (*l_tp_index).start_pos
+        } else {
+            // the index for this tile has not been built,
+            //  so move to the last SOT read
+            p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos
+        };
+        if l_sot_pos != 0 {
+            if opj_stream_seek(p_stream, l_sot_pos + 2i64, p_manager) == 0 {
                 event_msg!(p_manager, EVT_ERROR, "Problem with seek function\n",);
                 return 0i32;
             }
-- 
2.43.0


From 9a24cb120750db27d8f0e57e0896c480070d7710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 101/143] fix: report all precinct sizes and step sizes in the
 codestream information

---
 openjp2-rs/src/j2k.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 76d47bc..94e8922 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11532,18 +11532,8 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
             (*l_tccp_info).cblkh = (*l_tccp).cblkh;
             (*l_tccp_info).cblksty = (*l_tccp).cblksty;
             (*l_tccp_info).qmfbid = (*l_tccp).qmfbid;
-            if (*l_tccp).numresolutions < 33u32 {
-                memcpy(
-                    (*l_tccp_info).prch.as_mut_ptr() as *mut core::ffi::c_void,
-                    (*l_tccp).prch.as_mut_ptr() as *const core::ffi::c_void,
-                    (*l_tccp).numresolutions as usize,
-                );
-                memcpy(
-                    (*l_tccp_info).prcw.as_mut_ptr() as *mut core::ffi::c_void,
-                    (*l_tccp).prcw.as_mut_ptr() as *const core::ffi::c_void,
-                    (*l_tccp).numresolutions as usize,
-                );
-            }
+            (*l_tccp_info).prch = (*l_tccp).prch;
+            (*l_tccp_info).prcw = (*l_tccp).prcw;
             // quantization style
             (*l_tccp_info).qntsty = (*l_tccp).qntsty;
             (*l_tccp_info).numgbits = (*l_tccp).numgbits;
@@ -11552,7 +11542,7 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
             } else {
                 ((*l_tccp).numresolutions as OPJ_INT32 * 3i32) - 2i32
             };
-            if numbands < 3i32 * 33i32 - 2i32 {
+            if numbands <= 3i32 * 33i32 - 2i32 {
                 bandno = 0i32;
                 while bandno < numbands {
                     (*l_tccp_info).stepsizes_mant[bandno as usize] =
-- 
2.43.0


From ad10df5118c9f1cf7b36a4220c2c9367a5b7481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 102/143] fix: copy the number of each tile into the codestream
 index

---
 openjp2-rs/src/j2k.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 94e8922..20a1fad 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11607,6 +11607,7 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
             for it_tile in 0..src.nb_of_tiles as usize {
                 let src = &*src.tile_index.add(it_tile);
                 let dest = &mut *dest.tile_index.add(it_tile);
+                dest.tileno = src.tileno;
                 // Tile Marker
                 dest.marknum = src.marknum;
                 dest.marker = opj_j2k_copy_elements(src.marker, src.marknum)?;
-- 
2.43.0


From 89a9305447f7743a0d389267aa5573934c3963f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 103/143] fix: list each marker once in the codestream index of
 a tile which is read again

---
 openjp2-rs/src/j2k.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 20a1fad..a74164c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7892,21 +7892,21 @@ fn opj_j2k_add_tlmarker(
             let fresh24 = &mut (*(*cstr_index).tile_index.offset(tileno as isize)).marker;
             *fresh24 = new_marker
         }
-        // add the marker
-        (*(*(*cstr_index).tile_index.offset(tileno as isize))
-            .marker
-            .offset((*(*cstr_index).tile_index.offset(tileno as isize)).marknum as isize))
-        .type_ = marker.as_u32() as OPJ_UINT16;
-        (*(*(*cstr_index).tile_index.offset(tileno as isize))
-            .marker
-            .offset((*(*cstr_index).tile_index.offset(tileno as isize)).marknum as isize))
-        .pos = pos as OPJ_OFF_T;
-        (*(*(*cstr_index).tile_index.offset(tileno as isize))
-            .marker
-            .offset((*(*cstr_index).tile_index.offset(tileno as isize)).marknum as isize))
-        .len = len as OPJ_INT32;
-        let fresh25 = &mut (*(*cstr_index).tile_index.offset(tileno as isize)).marknum;
-        *fresh25 = (*fresh25).wrapping_add(1);
+        // add the marker, in the order of the positions: a tile may be read more than once
+        let tile_index = &mut *(*cstr_index).tile_index.add(tileno as usize);
+        let num = tile_index.marknum as usize;
+        let known = std::slice::from_raw_parts(tile_index.marker, num);
+        let at = known.partition_point(|known| known.pos < pos);
+        if at == num || known[at].pos != pos {
+            let entry = tile_index.marker.add(at);
+            std::ptr::copy(entry, entry.add(1), num - at);
+            tile_index.marknum += 1;
+        }
+        *tile_index.marker.add(at) = opj_marker_info_t {
+            type_: marker.as_u32() as OPJ_UINT16,
+            pos,
+            len: len as OPJ_INT32,
+        };
         if marker == J2KMarker::SOT {
             let mut l_current_tile_part =
                 (*(*cstr_index).tile_index.offset(tileno as isize)).current_tpsno;
-- 
2.43.0


From fb8a4a45b13c695dc7ca57e248bc30041326f251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 104/143] fix: list the tile-parts of a tile whose number of
 tile-parts is not given

---
 openjp2-rs/src/j2k.rs | 196 ++++++++----------------------------------
 1 file changed, 37 insertions(+), 159 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a74164c..f958200 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3819,167 +3819,45 @@ fn opj_j2k_read_sot(
         .tile_index
         .offset(p_j2k.m_current_tile_number as isize))
       .current_tpsno = l_current_part;
-      if l_num_parts != 0u32 {
-        (*(*p_j2k.cstr_index)
-          .tile_index
-          .offset(p_j2k.m_current_tile_number as isize))
-        .nb_tps = l_num_parts;
-        (*(*p_j2k.cstr_index)
-          .tile_index
-          .offset(p_j2k.m_current_tile_number as isize))
-        .current_nb_tps = l_num_parts;
-        if (*(*p_j2k.cstr_index)
-          .tile_index
-          .offset(p_j2k.m_current_tile_number as isize))
-        .tp_index
-        .is_null()
-        {
-          let fresh16 = &mut (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .tp_index;
-          *fresh16 = opj_calloc(
-            l_num_parts as size_t,
-            core::mem::size_of::<opj_tp_index_t>(),
-          ) as *mut opj_tp_index_t;
-          if (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .tp_index
-          .is_null()
-          {
-            event_msg!(
-              p_manager,
-              EVT_ERROR,
-              "Not enough memory to read SOT marker. Tile index allocation failed\n",
-            );
-            return 0i32;
-          }
-        } else {
-          let mut new_tp_index = opj_realloc(
-            (*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .tp_index as *mut core::ffi::c_void,
-            (l_num_parts as usize).wrapping_mul(core::mem::size_of::<opj_tp_index_t>()),
-          ) as *mut opj_tp_index_t;
-          if new_tp_index.is_null() {
-            opj_free(
-              (*(*p_j2k.cstr_index)
-                .tile_index
-                .offset(p_j2k.m_current_tile_number as isize))
-              .tp_index as *mut core::ffi::c_void,
-            );
-            let fresh17 = &mut (*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .tp_index;
-            *fresh17 = std::ptr::null_mut::<opj_tp_index_t>();
-            event_msg!(
-              p_manager,
-              EVT_ERROR,
-              "Not enough memory to read SOT marker. Tile index allocation failed\n",
-            );
-            return 0i32;
-          }
-          let fresh18 = &mut (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .tp_index;
-          *fresh18 = new_tp_index
-        }
+      // TNsot may not say how many tile-parts there are
+      let tile_index = &mut *(*p_j2k.cstr_index)
+        .tile_index
+        .add(p_j2k.m_current_tile_number as usize);
+      tile_index.nb_tps = if l_num_parts != 0 {
+        l_num_parts
       } else {
-        /*if (!p_j2k->cstr_index->tile_index[p_j2k->m_current_tile_number].tp_index)*/
-        if (*(*p_j2k.cstr_index)
-          .tile_index
-          .offset(p_j2k.m_current_tile_number as isize))
-        .tp_index
-        .is_null()
-        {
-          (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .current_nb_tps = 10 as OPJ_UINT32;
-          let fresh19 = &mut (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .tp_index;
-          *fresh19 = opj_calloc(
-            (*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .current_nb_tps as size_t,
-            core::mem::size_of::<opj_tp_index_t>(),
-          ) as *mut opj_tp_index_t;
-          if (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .tp_index
-          .is_null()
-          {
-            (*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .current_nb_tps = 0 as OPJ_UINT32;
-            event_msg!(
-              p_manager,
-              EVT_ERROR,
-              "Not enough memory to read SOT marker. Tile index allocation failed\n",
-            );
-            return 0i32;
-          }
-        }
-        if l_current_part
-          >= (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .current_nb_tps
-        {
-          let mut new_tp_index_0 = std::ptr::null_mut::<opj_tp_index_t>();
-          (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .current_nb_tps = l_current_part.wrapping_add(1u32);
-          new_tp_index_0 = opj_realloc(
-            (*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .tp_index as *mut core::ffi::c_void,
-            ((*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .current_nb_tps as usize)
-              .wrapping_mul(core::mem::size_of::<opj_tp_index_t>()),
-          ) as *mut opj_tp_index_t;
-          if new_tp_index_0.is_null() {
-            opj_free(
-              (*(*p_j2k.cstr_index)
-                .tile_index
-                .offset(p_j2k.m_current_tile_number as isize))
-              .tp_index as *mut core::ffi::c_void,
-            );
-            let fresh20 = &mut (*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .tp_index;
-            *fresh20 = std::ptr::null_mut::<opj_tp_index_t>();
-            (*(*p_j2k.cstr_index)
-              .tile_index
-              .offset(p_j2k.m_current_tile_number as isize))
-            .current_nb_tps = 0 as OPJ_UINT32;
-            event_msg!(
-              p_manager,
-              EVT_ERROR,
-              "Not enough memory to read SOT marker. Tile index allocation failed\n",
-            );
-            return 0i32;
-          }
-          let fresh21 = &mut (*(*p_j2k.cstr_index)
-            .tile_index
-            .offset(p_j2k.m_current_tile_number as isize))
-          .tp_index;
-          *fresh21 = new_tp_index_0
+        core::cmp::max(tile_index.nb_tps, l_current_part + 1)
+      };
+      if tile_index.tp_index.is_null() || tile_index.nb_tps > tile_index.current_nb_tps {
+        let known = if tile_index.tp_index.is_null() {
+          0
+        } else {
+          tile_index.current_nb_tps
+        };
+        let new_tp_index = opj_realloc(
+          tile_index.tp_index as *mut core::ffi::c_void,
+          (tile_index.nb_tps as usize).wrapping_mul(core::mem::size_of::<opj_tp_index_t>()),
+        ) as *mut opj_tp_index_t;
+        if new_tp_index.is_null() {
+          opj_free(tile_index.tp_index as *mut core::ffi::c_void);
+          tile_index.tp_index = std::ptr::null_mut::<opj_tp_index_t>();
+          tile_index.current_nb_tps = 0;
+          tile_index.nb_tps = 0;
+          event_msg!(
+            p_manager,
+            EVT_ERROR,
+            "Not enough memory to read SOT marker. Tile index allocation failed\n",
+          );
+          return 0i32;
         }
+        // nothing is known yet about the new tile-parts
+        core::ptr::write_bytes(
+          new_tp_index.add(known as usize),
+          0,
+          (tile_index.nb_tps - known) as usize,
+        );
+        tile_index.tp_index = new_tp_index;
+        tile_index.current_nb_tps = tile_index.nb_tps;
       }
     }
     /* FIXME move this onto a separate method to call before reading any SOT, remove part about main_end header, use a index struct inside p_j2k */
-- 
2.43.0


From 631c0a2ba533f8efb11d7c8caaf98880f348a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 105/143] fix: keep the code-blocks which have no data in a
 packet cut short

---
 openjp2-rs/src/t2.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index fa0c8eb..3cde676 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1425,11 +1425,6 @@ unsafe fn opj_t2_read_packet_data(
             cblkno = 0 as OPJ_UINT32;
             while cblkno < l_nb_code_blocks {
                 let mut l_seg = std::ptr::null_mut::<opj_tcd_seg_t>();
-                // if we have a partial data stream, set numchunks to zero
-                // since we have no data to actually decode.
-                if partial_buffer != 0 {
-                    (*l_cblk).numchunks = 0 as OPJ_UINT32
-                }
                 if (*l_cblk).numnewpasses == 0 {
                     // nothing to do
                     l_cblk = l_cblk.offset(1)
-- 
2.43.0


From 66eaf8cf6b6d2a82cb00390dc343c76c3ca34346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 106/143] fix: do not read a packet header from a skipped
 packet cut short

---
 openjp2-rs/src/t2.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 3cde676..b707915 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1619,6 +1619,8 @@ unsafe fn opj_t2_skip_packet_data(
                                               (*l_seg).newlen, p_max_length,
                                               cblkno, (*p_pi).precno, bandno,
                                               (*p_pi).resno, (*p_pi).compno);
+                                // there is nothing after the cut
+                                *p_data_read = p_max_length;
                                 return 1i32;
                             }
                         }
-- 
2.43.0


From 07949cd1444d6b31bb07618ed5760ded81d65e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 107/143] fix: ignore a packet header cut short unless in
 strict mode

---
 openjp2-rs/src/bio.rs |  5 +++++
 openjp2-rs/src/t2.rs  | 29 +++++++++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/bio.rs b/openjp2-rs/src/bio.rs
index f9c709a..b72d2c3 100644
--- a/openjp2-rs/src/bio.rs
+++ b/openjp2-rs/src/bio.rs
@@ -9,6 +9,8 @@ pub struct opj_bio {
     pub bp: *mut OPJ_BYTE,
     pub buf: OPJ_UINT32,
     pub ct: OPJ_UINT32,
+    /// more was read than there is
+    pub exhausted: bool,
 }
 pub type opj_bio_t = opj_bio;
 // *
@@ -39,6 +41,7 @@ unsafe fn opj_bio_bytein(mut bio: *mut opj_bio_t) -> OPJ_BOOL {
     (*bio).buf = (*bio).buf << 8i32 & 0xFFFFu32;
     (*bio).ct = if (*bio).buf == 0xFF00u32 { 7i32 } else { 8i32 } as OPJ_UINT32;
     if (*bio).bp as OPJ_SIZE_T >= (*bio).end as OPJ_SIZE_T {
+        (*bio).exhausted = true;
         return 0i32;
     }
     let fresh1 = (*bio).bp;
@@ -123,6 +126,7 @@ pub(crate) unsafe fn opj_bio_init_enc(
     (*bio).start = bp;
     (*bio).end = bp.offset(len as isize);
     (*bio).bp = bp;
+    (*bio).exhausted = false;
     (*bio).buf = 0 as OPJ_UINT32;
     (*bio).ct = 8 as OPJ_UINT32;
 }
@@ -135,6 +139,7 @@ pub(crate) unsafe fn opj_bio_init_dec(
     (*bio).start = bp;
     (*bio).end = bp.offset(len as isize);
     (*bio).bp = bp;
+    (*bio).exhausted = false;
     (*bio).buf = 0 as OPJ_UINT32;
     (*bio).ct = 0 as OPJ_UINT32;
 }
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index b707915..5d02da4 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1014,7 +1014,7 @@ unsafe fn opj_t2_skip_packet(
 }
 
 unsafe fn opj_t2_read_packet_header(
-    _p_t2: *mut opj_t2_t,
+    mut p_t2: *mut opj_t2_t,
     mut p_tile: *mut opj_tcd_tile_t,
     mut p_tcp: *mut opj_tcp_t,
     mut p_pi: *mut opj_pi_iterator_t,
@@ -1080,6 +1080,16 @@ unsafe fn opj_t2_read_packet_header(
     if (*p_tcp).csty & 0x2u32 != 0 {
         if p_max_length < 6u32 {
             event_msg!(p_manager, EVT_WARNING, "Not enough space for expected SOP marker\n",);
+            if (*(*p_t2).cp).strict == 0
+                && p_max_length >= 2u32
+                && *l_current_data == 0xFF
+                && *l_current_data.offset(1) == 0x91
+            {
+                // the data ends within the marker
+                *p_is_data_present = 0i32;
+                *p_data_read = p_max_length;
+                return 1i32;
+            }
         } else if *l_current_data as core::ffi::c_int != 0xFFi32
             || *l_current_data.offset(1) as core::ffi::c_int != 0x91i32
         {
@@ -1117,7 +1127,7 @@ unsafe fn opj_t2_read_packet_header(
 
     l_present = opj_bio_read(l_bio, 1 as OPJ_UINT32);
     log::debug!("present={}", l_present);
-    if l_present == 0 {
+    if l_present == 0 && !((*l_bio).exhausted && (*(*p_t2).cp).strict == 0) {
         // TODO MSD: no test to control the output of this function
         opj_bio_inalign(l_bio);
         l_header_data = l_header_data.offset(opj_bio_numbytes(l_bio));
@@ -1155,7 +1165,7 @@ unsafe fn opj_t2_read_packet_header(
 
     l_band = (*l_res).bands.as_mut_ptr();
     bandno = 0 as OPJ_UINT32;
-    while bandno < (*l_res).numbands {
+    while bandno < (*l_res).numbands && l_present != 0 {
         let mut l_prc_0: *mut opj_tcd_precinct_t =
             &mut *(*l_band).precincts.offset((*p_pi).precno as isize) as *mut opj_tcd_precinct_t;
         if opj_tcd_is_band_empty(l_band) == 0 {
@@ -1353,7 +1363,18 @@ unsafe fn opj_t2_read_packet_header(
         bandno = bandno.wrapping_add(1);
         l_band = l_band.offset(1)
     }
-    if opj_bio_inalign(l_bio) == 0 {
+    let l_aligned = opj_bio_inalign(l_bio);
+    if (*l_bio).exhausted && (*(*p_t2).cp).strict == 0 {
+        // the data ends within this packet header: nothing it says is complete
+        event_msg!(p_manager, EVT_WARNING, "Packet header cut short\n",);
+        opj_bio_destroy(l_bio);
+        *l_header_data_start = (*l_header_data_start).offset(*l_modified_length_ptr as isize);
+        *l_modified_length_ptr = 0;
+        *p_is_data_present = 0i32;
+        *p_data_read = p_max_length;
+        return 1i32;
+    }
+    if l_aligned == 0 {
         opj_bio_destroy(l_bio);
         return 0i32;
     }
-- 
2.43.0


From 340ea0dbc62891ffe64e802da2b27a5b3bdce90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 108/143] fix: decode what a stream holds which ends within a
 tile-part header unless in strict mode

---
 openjp2-rs/src/j2k.rs | 95 ++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 29 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index f958200..5d2217a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9137,6 +9137,20 @@ pub(crate) fn opj_j2k_read_tile_header(
     true
 }
 
+/// Whether a codestream which ends before it should is taken for what it holds
+fn opj_j2k_ends_early(p_j2k: &mut opj_j2k, p_manager: &mut opj_event_mgr) -> bool {
+    if p_j2k.m_cp.strict != 0 {
+        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+        return false;
+    }
+    event_msg!(p_manager, EVT_WARNING, "Stream too short\n",);
+    unsafe {
+        p_j2k.m_specific_param.m_decoder.m_skip_data = false;
+        p_j2k.m_specific_param.m_decoder.m_can_decode = false;
+    }
+    true
+}
+
 fn opj_j2k_read_next_tile_header(
     p_j2k: &mut opj_j2k,
     p_stream: &mut Stream,
@@ -9156,12 +9170,17 @@ fn opj_j2k_read_next_tile_header(
         }
         // We need to encounter a SOT marker (a new tile-part header)
         // Read into the codestream until reach the EOC or ! can_decode ??? FIXME
-        while !p_j2k.m_specific_param.m_decoder.m_can_decode && l_current_marker != J2KMarker::EOC {
+        'tile_parts: while !p_j2k.m_specific_param.m_decoder.m_can_decode
+            && l_current_marker != J2KMarker::EOC
+        {
             // Try to read until the Start Of Data is detected
             while l_current_marker != J2KMarker::SOD {
                 if opj_stream_get_number_byte_left(p_stream) == 0i64 {
-                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
-                    break;
+                    if !opj_j2k_ends_early(p_j2k, p_manager) {
+                        return false;
+                    }
+                    l_current_marker = J2KMarker::EOC;
+                    break 'tile_parts;
                 } else if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH
                     && !l_current_marker.has_segment()
                 {
@@ -9175,8 +9194,11 @@ fn opj_j2k_read_next_tile_header(
                         p_manager,
                     ) != 2
                     {
-                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                        return false;
+                        if !opj_j2k_ends_early(p_j2k, p_manager) {
+                            return false;
+                        }
+                        l_current_marker = J2KMarker::EOC;
+                        break 'tile_parts;
                     }
                     l_current_marker =
                         J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
@@ -9190,8 +9212,11 @@ fn opj_j2k_read_next_tile_header(
                         p_manager,
                     ) != 2
                     {
-                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                        return false;
+                        if !opj_j2k_ends_early(p_j2k, p_manager) {
+                            return false;
+                        }
+                        l_current_marker = J2KMarker::EOC;
+                        break 'tile_parts;
                     }
                     // Read 2 bytes from the buffer as the marker size
                     opj_read_bytes(
@@ -9245,12 +9270,11 @@ fn opj_j2k_read_next_tile_header(
                             if l_marker_size as OPJ_OFF_T
                                 > opj_stream_get_number_byte_left(p_stream)
                             {
-                                event_msg!(
-                                    p_manager,
-                                    EVT_ERROR,
-                                    "Marker size inconsistent with stream length\n",
-                                );
-                                return false;
+                                if !opj_j2k_ends_early(p_j2k, p_manager) {
+                                    return false;
+                                }
+                                l_current_marker = J2KMarker::EOC;
+                                break 'tile_parts;
                             }
                             new_header_data = opj_realloc(
                                 p_j2k.m_specific_param.m_decoder.m_header_data
@@ -9285,8 +9309,11 @@ fn opj_j2k_read_next_tile_header(
                             p_manager,
                         ) != l_marker_size as usize
                         {
-                            event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                            return false;
+                            if !opj_j2k_ends_early(p_j2k, p_manager) {
+                                return false;
+                            }
+                            l_current_marker = J2KMarker::EOC;
+                            break 'tile_parts;
                         }
                         // Read the marker segment with the correct marker handler
                         if l_marker_handler.handler(
@@ -9352,8 +9379,11 @@ fn opj_j2k_read_next_tile_header(
                                 p_manager,
                             ) != p_j2k.m_specific_param.m_decoder.m_sot_length as i64
                             {
-                                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                                return false;
+                                if !opj_j2k_ends_early(p_j2k, p_manager) {
+                                    return false;
+                                }
+                                l_current_marker = J2KMarker::EOC;
+                                break 'tile_parts;
                             }
                             l_current_marker = J2KMarker::SOD
                         // Normally we reached a SOD
@@ -9367,8 +9397,11 @@ fn opj_j2k_read_next_tile_header(
                                 p_manager,
                             ) != 2
                             {
-                                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                                return false;
+                                if !opj_j2k_ends_early(p_j2k, p_manager) {
+                                    return false;
+                                }
+                                l_current_marker = J2KMarker::EOC;
+                                break 'tile_parts;
                             }
                             // Read 2 bytes from the buffer as the new marker ID
                             l_current_marker = J2KMarker::from_buffer(
@@ -9488,8 +9521,11 @@ fn opj_j2k_read_next_tile_header(
                         break;
                     }
                 }
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return false;
+                if !opj_j2k_ends_early(p_j2k, p_manager) {
+                    return false;
+                }
+                l_current_marker = J2KMarker::EOC;
+                break 'tile_parts;
             } else {
                 // Read 2 bytes from buffer as the new marker ID
                 l_current_marker =
@@ -9629,13 +9665,18 @@ pub(crate) fn opj_j2k_decode_tile(
         if opj_stream_get_number_byte_left(p_stream) == 0i64
             && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
         {
+            // there may be other tiles which were read already
+            p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+            p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
             return 1i32;
         }
         if p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC {
             if opj_stream_read_data(p_stream, l_data.as_mut_ptr(), 2 as OPJ_SIZE_T, p_manager) != 2
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                if !opj_j2k_ends_early(p_j2k, p_manager) {
+                    return 0i32;
+                }
+                l_data = [0xff, 0xd9];
             }
             l_current_marker = J2KMarker::from_buffer(l_data.as_mut_ptr());
             if l_current_marker == J2KMarker::EOC {
@@ -9643,7 +9684,8 @@ pub(crate) fn opj_j2k_decode_tile(
                 p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC
             } else if l_current_marker != J2KMarker::SOT {
                 if opj_stream_get_number_byte_left(p_stream) == 0i64 {
-                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                    p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
                     event_msg!(p_manager, EVT_WARNING, "Stream does not end with EOC\n",);
                     return 1i32;
                 }
@@ -11689,11 +11731,6 @@ fn opj_j2k_decode_tiles(
                 "Image data has been updated with tile %d.\n\n",
                 tile_info.index.wrapping_add(1u32),
             );
-            if opj_stream_get_number_byte_left(p_stream) == 0i64
-                && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
-            {
-                break;
-            }
             nr_tiles = nr_tiles.wrapping_add(1);
             if nr_tiles == p_j2k.m_cp.th.wrapping_mul(p_j2k.m_cp.tw) {
                 break;
-- 
2.43.0


From f131b6c5a8d4ca11c0f610c2a48788d1b918d2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 109/143] fix: do not refuse a stream because the tile-part
 after the one read is cut short

---
 openjp2-rs/src/j2k.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5d2217a..81fd030 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9052,8 +9052,11 @@ fn opj_j2k_need_nb_tile_parts_correction(
                 p_manager,
             ) != 2
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                // the stream ends within the marker, as will be found when it is read
+                if opj_stream_seek(p_stream, l_stream_pos_backup, p_manager) == 0 {
+                    return 0i32;
+                }
+                return 1i32;
             }
             // Read 2 bytes from the buffer as the marker size
             opj_read_bytes(l_header_data.as_mut_ptr(), &mut l_marker_size, 2 as OPJ_UINT32);
@@ -9070,8 +9073,11 @@ fn opj_j2k_need_nb_tile_parts_correction(
                 p_manager,
             ) != l_marker_size as usize
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                // the stream ends within the marker, as will be found when it is read
+                if opj_stream_seek(p_stream, l_stream_pos_backup, p_manager) == 0 {
+                    return 0i32;
+                }
+                return 1i32;
             }
             if opj_j2k_get_sot_values(
                 l_header_data.as_mut_ptr(),
-- 
2.43.0


From 75e8f44b90d2c1bddf1c39795004ca68a74199ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 110/143] fix: leave what a stream cut short holds nothing of
 blank unless in strict mode

---
 openjp2-rs/src/j2k.rs | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 81fd030..7489854 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11584,6 +11584,19 @@ fn opj_j2k_allocate_tile_element_cstr_index(mut p_j2k: &mut opj_j2k) -> OPJ_BOOL
         1i32
     }
 }
+/// Gives a component blank samples
+unsafe fn opj_j2k_blank_component(comp: &mut opj_image_comp_t) -> bool {
+    let l_size = (comp.w as usize)
+        .wrapping_mul(comp.h as usize)
+        .wrapping_mul(core::mem::size_of::<OPJ_INT32>());
+    comp.data = opj_image_data_alloc(l_size) as *mut OPJ_INT32;
+    if comp.data.is_null() {
+        return false;
+    }
+    core::ptr::write_bytes(comp.data as *mut u8, 0, l_size);
+    true
+}
+
 fn opj_j2k_are_all_used_components_decoded(
     mut p_j2k: &mut opj_j2k,
     mut p_manager: &mut opj_event_mgr,
@@ -11591,6 +11604,8 @@ fn opj_j2k_are_all_used_components_decoded(
     unsafe {
         let mut compno: OPJ_UINT32 = 0;
         let mut decoded_all_used_components = 1i32;
+        // a stream which was cut short may hold nothing of a component
+        let l_lenient = p_j2k.m_cp.strict == 0;
         if p_j2k.m_specific_param.m_decoder.m_numcomps_to_decode != 0 {
             compno = 0 as OPJ_UINT32;
             while compno < p_j2k.m_specific_param.m_decoder.m_numcomps_to_decode {
@@ -11599,9 +11614,13 @@ fn opj_j2k_are_all_used_components_decoded(
                     .m_decoder
                     .m_comps_indices_to_decode
                     .offset(compno as isize);
-                let comp = &*(*p_j2k.m_output_image).comps.offset(dec_compno as isize);
+                let comp = &mut *(*p_j2k.m_output_image).comps.offset(dec_compno as isize);
                 // a component without samples has no data
-                if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
+                if comp.data.is_null()
+                    && comp.w != 0
+                    && comp.h != 0
+                    && !(l_lenient && opj_j2k_blank_component(comp))
+                {
                     event_msg!(
                         p_manager,
                         EVT_WARNING,
@@ -11615,8 +11634,12 @@ fn opj_j2k_are_all_used_components_decoded(
         } else {
             compno = 0 as OPJ_UINT32;
             while compno < (*p_j2k.m_output_image).numcomps {
-                let comp = &*(*p_j2k.m_output_image).comps.offset(compno as isize);
-                if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
+                let comp = &mut *(*p_j2k.m_output_image).comps.offset(compno as isize);
+                if comp.data.is_null()
+                    && comp.w != 0
+                    && comp.h != 0
+                    && !(l_lenient && opj_j2k_blank_component(comp))
+                {
                     event_msg!(p_manager, EVT_WARNING, "Failed to decode component %d\n", compno,);
                     decoded_all_used_components = 0i32
                 }
@@ -11659,6 +11682,10 @@ fn opj_j2k_decode_tiles(
             if !opj_j2k_read_tile_header(p_j2k, p_stream, &mut tile_info, p_manager) {
                 return 0i32;
             }
+            if !tile_info.go_on {
+                // there is no tile
+                return opj_j2k_are_all_used_components_decoded(p_j2k, p_manager);
+            }
             if opj_j2k_decode_tile(p_j2k, tile_info.index, None, p_stream, p_manager) == 0 {
                 event_msg!(p_manager, EVT_ERROR, "Failed to decode tile 1/1\n",);
                 return 0i32;
-- 
2.43.0


From dfb87a00cd65f0eea98a8b3f5a90fe62b1bdbf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 111/143] fix: decode all tiles of a stream without EOC whose
 numbers of tile-parts are not given

---
 openjp2-rs/src/j2k.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7489854..9a42b94 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9521,9 +9521,7 @@ fn opj_j2k_read_next_tile_header(
                         event_msg!(p_manager, EVT_INFO,
                                   "Tile %u has TPsot == 0 and TNsot == 0, but no other tile-parts were found. EOC is also missing.\n",
                                   l_tile_no_0);
-                        p_j2k.m_current_tile_number = l_tile_no_0;
                         l_current_marker = J2KMarker::EOC;
-                        p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
                         break;
                     }
                 }
-- 
2.43.0


From ed1d64ff30bfd3f69fb6a90319aec25225dbd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 112/143] fix: decode a tile at the wanted resolution whatever
 packets it has

---
 openjp2-rs/src/t2.rs | 42 ++++++------------------------------------
 1 file changed, 6 insertions(+), 36 deletions(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 5d02da4..1115cc0 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -346,29 +346,11 @@ pub(crate) unsafe fn opj_t2_decode_packets(
     l_current_pi = l_pi;
     pino = 0 as OPJ_UINT32;
     while pino <= (*l_tcp).numpocs {
-        // if the resolution needed is too low, one dim of the tilec could be equal to zero
-        // and no packets are used to decode this resolution and
-        // l_current_pi->resno is always >=
-        // p_tile->comps[l_current_pi->compno].minimum_num_resolutions
-        // and no l_img_comp->resno_decoded are computed
-        let mut first_pass_failed = std::ptr::null_mut::<OPJ_BOOL>();
         if (*l_current_pi).poc.prg as core::ffi::c_int == OPJ_PROG_UNKNOWN as core::ffi::c_int {
             // TODO ADE : add an error
             opj_pi_destroy(l_pi, l_nb_pocs);
             return 0i32;
         }
-        first_pass_failed = opj_malloc(
-            ((*l_image).numcomps as usize).wrapping_mul(core::mem::size_of::<OPJ_BOOL>()),
-        ) as *mut OPJ_BOOL;
-        if first_pass_failed.is_null() {
-            opj_pi_destroy(l_pi, l_nb_pocs);
-            return 0i32;
-        }
-        memset(
-            first_pass_failed as *mut core::ffi::c_void,
-            1i32,
-            ((*l_image).numcomps as usize).wrapping_mul(core::mem::size_of::<OPJ_BOOL>()),
-        );
         while opj_pi_next(l_current_pi) != 0 {
             let mut skip_packet = 0i32;
             log::debug!(
@@ -431,7 +413,6 @@ pub(crate) unsafe fn opj_t2_decode_packets(
             }
             if skip_packet == 0 {
                 l_nb_bytes_read = 0 as OPJ_UINT32;
-                *first_pass_failed.offset((*l_current_pi).compno as isize) = 0i32;
                 if opj_t2_decode_packet(
                     p_t2,
                     p_tile,
@@ -445,13 +426,8 @@ pub(crate) unsafe fn opj_t2_decode_packets(
                 ) == 0
                 {
                     opj_pi_destroy(l_pi, l_nb_pocs);
-                    opj_free(first_pass_failed as *mut core::ffi::c_void);
                     return 0i32;
                 }
-                l_img_comp = &mut *(*l_image).comps.offset((*l_current_pi).compno as isize)
-                    as *mut opj_image_comp_t;
-                (*l_img_comp).resno_decoded =
-                    opj_uint_max((*l_current_pi).resno, (*l_img_comp).resno_decoded)
             } else {
                 l_nb_bytes_read = 0 as OPJ_UINT32;
                 if opj_t2_skip_packet(
@@ -467,31 +443,25 @@ pub(crate) unsafe fn opj_t2_decode_packets(
                 ) == 0
                 {
                     opj_pi_destroy(l_pi, l_nb_pocs);
-                    opj_free(first_pass_failed as *mut core::ffi::c_void);
                     return 0i32;
                 }
             }
-            if *first_pass_failed.offset((*l_current_pi).compno as isize) != 0 {
-                l_img_comp = &mut *(*l_image).comps.offset((*l_current_pi).compno as isize)
-                    as *mut opj_image_comp_t;
-                if (*l_img_comp).resno_decoded == 0u32 {
-                    (*l_img_comp).resno_decoded =
-                        (*(*p_tile).comps.offset((*l_current_pi).compno as isize))
-                            .minimum_num_resolutions
-                            .wrapping_sub(1u32)
-                }
-            }
             l_current_data = l_current_data.offset(l_nb_bytes_read as isize);
             p_max_len = (p_max_len as core::ffi::c_uint).wrapping_sub(l_nb_bytes_read) as OPJ_UINT32
         }
         l_current_pi = l_current_pi.offset(1);
-        opj_free(first_pass_failed as *mut core::ffi::c_void);
         pino += 1;
     }
     // INDEX >>
     // << INDEX
     // don't forget to release pi
     opj_pi_destroy(l_pi, l_nb_pocs);
+    // every component is decoded up to the resolution wanted, be there packets for it or not
+    for compno in 0..(*p_tile).numcomps as usize {
+        l_img_comp = (*l_image).comps.add(compno);
+        (*l_img_comp).resno_decoded =
+            (*(*p_tile).comps.add(compno)).minimum_num_resolutions.wrapping_sub(1u32);
+    }
     *p_data_read = l_current_data.offset_from(p_src) as OPJ_UINT32;
     1i32
 }
-- 
2.43.0


From e31d4af17d1278c44d6488e784be44f3a377ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 113/143] fix: read no packed packet headers after missing ones
 when the stream ends early

---
 openjp2-rs/src/j2k.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 9a42b94..702b7b9 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9153,6 +9153,24 @@ fn opj_j2k_ends_early(p_j2k: &mut opj_j2k, p_manager: &mut opj_event_mgr) -> boo
     unsafe {
         p_j2k.m_specific_param.m_decoder.m_skip_data = false;
         p_j2k.m_specific_param.m_decoder.m_can_decode = false;
+        if p_j2k.m_specific_param.m_decoder.m_state == J2KState::TPH && !p_j2k.m_cp.ppm {
+            // packed packet headers are of no use without those before them
+            let tcp = &mut *p_j2k.m_cp.tcps.add(p_j2k.m_current_tile_number as usize);
+            let mut found = false;
+            let mut missing = false;
+            for i in 0..tcp.ppt_markers_count as usize {
+                let marker = &mut *tcp.ppt_markers.add(i);
+                if marker.m_data.is_null() {
+                    missing = found;
+                } else if missing {
+                    opj_free(marker.m_data as *mut core::ffi::c_void);
+                    marker.m_data = std::ptr::null_mut();
+                    marker.m_data_size = 0;
+                } else {
+                    found = true;
+                }
+            }
+        }
     }
     true
 }
-- 
2.43.0


From 7242ceaec32a8a057ec05dcfeb20fa5fdb4b40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 114/143] fix: read the packed header of a packet whose SOP
 marker is cut short

---
 openjp2-rs/src/t2.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 1115cc0..5066296 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1051,14 +1051,17 @@ unsafe fn opj_t2_read_packet_header(
         if p_max_length < 6u32 {
             event_msg!(p_manager, EVT_WARNING, "Not enough space for expected SOP marker\n",);
             if (*(*p_t2).cp).strict == 0
-                && p_max_length >= 2u32
+                && p_max_length >= 1u32
                 && *l_current_data == 0xFF
-                && *l_current_data.offset(1) == 0x91
+                && (p_max_length == 1u32 || *l_current_data.offset(1) == 0x91)
             {
                 // the data ends within the marker
-                *p_is_data_present = 0i32;
-                *p_data_read = p_max_length;
-                return 1i32;
+                if !(*p_tcp).ppt {
+                    *p_is_data_present = 0i32;
+                    *p_data_read = p_max_length;
+                    return 1i32;
+                }
+                l_current_data = l_current_data.offset(p_max_length as isize)
             }
         } else if *l_current_data as core::ffi::c_int != 0xFFi32
             || *l_current_data.offset(1) as core::ffi::c_int != 0x91i32
@@ -1334,10 +1337,14 @@ unsafe fn opj_t2_read_packet_header(
         l_band = l_band.offset(1)
     }
     let l_aligned = opj_bio_inalign(l_bio);
-    if (*l_bio).exhausted && (*(*p_t2).cp).strict == 0 {
+    if (*l_bio).exhausted {
         // the data ends within this packet header: nothing it says is complete
-        event_msg!(p_manager, EVT_WARNING, "Packet header cut short\n",);
         opj_bio_destroy(l_bio);
+        if (*(*p_t2).cp).strict != 0 {
+            event_msg!(p_manager, EVT_ERROR, "Packet header cut short\n",);
+            return 0i32;
+        }
+        event_msg!(p_manager, EVT_WARNING, "Packet header cut short\n",);
         *l_header_data_start = (*l_header_data_start).offset(*l_modified_length_ptr as isize);
         *l_modified_length_ptr = 0;
         *p_is_data_present = 0i32;
-- 
2.43.0


From c666b7b739906ec8a18fe822b017a7c5403440d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 115/143] fix: extend the sign of palette entries

---
 openjp2-rs/src/jp2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 63b6db0..a2618c9 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -677,7 +677,12 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
                 bytes_to_read = core::mem::size_of::<u32>()
             }
             if let Ok(value) = buf.read_uint::<BigEndian>(bytes_to_read) {
-                entries.push(value as u32);
+                let unused = 32 - u32::from(size.min(32));
+                entries.push(if channel.sign != 0 {
+                    (((value as u32) << unused) as i32 >> unused) as u32
+                } else {
+                    value as u32
+                });
             } else {
                 // Truncated data.
                 return 0;
-- 
2.43.0


From 372f2770c8b2e9b6e441e09249cb1683754612a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 116/143] fix: refuse palette entries which samples cannot hold

---
 openjp2-rs/src/jp2.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index a2618c9..ed27ef5 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -668,16 +668,17 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         let sign = if value & 0x80 != 0 { 1 } else { 0 } as u8;
         channel.push(Jp2ChannelSign { size, sign });
     }
+    if channel.iter().any(|channel| channel.size > 32) {
+        event_msg!(p_manager, EVT_ERROR, "Palette entries of more than 32 bits\n",);
+        return 0;
+    }
     for _ in 0..nr_entries {
         for channel in &channel {
             let size = channel.size;
             // Convert channel size in bits to bytes
-            let mut bytes_to_read = (size as usize + 7) >> 3;
-            if bytes_to_read > core::mem::size_of::<u32>() {
-                bytes_to_read = core::mem::size_of::<u32>()
-            }
+            let bytes_to_read = (size as usize + 7) >> 3;
             if let Ok(value) = buf.read_uint::<BigEndian>(bytes_to_read) {
-                let unused = 32 - u32::from(size.min(32));
+                let unused = 32 - u32::from(size);
                 entries.push(if channel.sign != 0 {
                     (((value as u32) << unused) as i32 >> unused) as u32
                 } else {
-- 
2.43.0


From 644c65e0938526930ce52f45464ccdbb5af3a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 117/143] fix: a channel used directly has the depth of its
 component

---
 openjp2-rs/src/jp2.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index ed27ef5..868ee53 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -577,12 +577,7 @@ fn opj_jp2_apply_pclr(
     let new_comps = image.comps_mut().expect("Just allocated");
 
     let top_k = pclr.nr_entries as i32 - 1;
-    for ((cmap, channel), new_comp) in pclr
-        .cmap
-        .iter()
-        .zip(&pclr.channel)
-        .zip(new_comps.iter_mut())
-    {
+    for (cmap, new_comp) in pclr.cmap.iter().zip(new_comps.iter_mut()) {
         let old_comp = &old_comps[cmap.cmp as usize];
 
         // Palette mapping:
@@ -593,8 +588,11 @@ fn opj_jp2_apply_pclr(
             event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
             return 0;
         }
-        new_comp.prec = channel.size as OPJ_UINT32;
-        new_comp.sgnd = channel.sign as OPJ_UINT32;
+        if cmap.mtyp != 0 {
+            let channel = &pclr.channel[cmap.pcol as usize];
+            new_comp.prec = channel.size as OPJ_UINT32;
+            new_comp.sgnd = channel.sign as OPJ_UINT32;
+        }
 
         // Palette mapping:
         let src = old_comp.data().expect("Source data shouldn't be null"); // verified above
-- 
2.43.0


From 18a79245d6875aaa4bc4fe6a277e0ece729b6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 118/143] fix: map channels as the component mapping box says

---
 openjp2-rs/src/jp2.rs | 181 +++++++++++++++---------------------------
 1 file changed, 64 insertions(+), 117 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 868ee53..9ef0263 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1,4 +1,3 @@
-use std::collections::BTreeSet;
 use std::io::{Read, Write};
 
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -376,7 +375,7 @@ fn opj_jp2_check_color(
         // cdef applies to cmap channels if any
         if let Some(pclr) = &color.jp2_pclr {
             if !pclr.cmap.is_empty() {
-                nr_channels = pclr.nr_channels as u32
+                nr_channels = pclr.cmap.len() as u32
             }
         }
         for info in &cdef.info {
@@ -415,114 +414,66 @@ fn opj_jp2_check_color(
     // testcases 451.pdf.SIGSEGV.f4c.3723, 451.pdf.SIGSEGV.5b5.3723 and
     // 66ea31acbb0f23a2bbc91f64d69a03f5_signal_sigsegv_13937c0_7030_5725.pdf
     if let Some(pclr) = &mut color.jp2_pclr {
-        let nr_channels = pclr.nr_channels as usize;
-        if pclr.cmap.len() == nr_channels {
-            let mut is_sane = true;
+        let mut is_sane = true;
+        for (i, cmap) in pclr.cmap.iter().enumerate() {
             // verify that all original components match an existing one
-            for cmap in &pclr.cmap {
-                if cmap.cmp as u32 >= image.numcomps {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Invalid component index %d (>= %d).\n",
-                        cmap.cmp as core::ffi::c_int,
-                        image.numcomps,
-                    );
-                    is_sane = false
-                }
-            }
-            let mut pcol_usage = BTreeSet::new();
-            // verify that no component is targeted more than once
-            for i in 0..nr_channels {
-                let cmap = pclr.cmap[i];
-                let mut mtyp = cmap.mtyp;
-                let mut pcol = cmap.pcol;
-                // See ISO 15444-1 Table I.14 – MTYPi field values
-                if mtyp != 0 && mtyp != 1 {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Invalid value for cmap[%d].mtyp = %d.\n",
-                        i as core::ffi::c_int,
-                        mtyp as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if pcol as usize >= nr_channels {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Invalid component/palette index for direct mapping %d.\n",
-                        pcol as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if pcol_usage.contains(&pcol) && mtyp == 1 {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Component %d is mapped twice.\n",
-                        pcol as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if mtyp == 0 && pcol != 0 {
-                    // I.5.3.5 PCOL: If the value of the MTYP field for this channel is 0, then
-                    // the value of this field shall be 0.
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Direct use at #%d however pcol=%d.\n",
-                        i as core::ffi::c_int,
-                        pcol as core::ffi::c_int,
-                    );
-                    is_sane = false
-                } else if mtyp == 1 && pcol as usize != i {
-                    // OpenJPEG implementation limitation. See assert(i == pcol);
-                    // in opj_jp2_apply_pclr()
-                    event_msg!(p_manager, EVT_ERROR,
-                              "Implementation limitation: for palette mapping, pcol[%d] should be equal to %d, but is equal to %d.\n",
-                              i as core::ffi::c_int, i as core::ffi::c_int,
-                              pcol as core::ffi::c_int);
-                    is_sane = false
-                } else {
-                    pcol_usage.insert(pcol);
-                }
-            }
-            // verify that all components are targeted at least once
-            for i in 0..nr_channels {
-                let cmap = pclr.cmap[i];
-                if !pcol_usage.contains(&(i as u8)) && cmap.mtyp != 0 {
-                    event_msg!(
-                        p_manager,
-                        EVT_ERROR,
-                        "Component %d doesn\'t have a mapping.\n",
-                        i as core::ffi::c_int,
-                    );
-                    is_sane = false
-                }
+            if cmap.cmp as u32 >= image.numcomps {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Invalid component index %d (>= %d).\n",
+                    cmap.cmp as core::ffi::c_int,
+                    image.numcomps,
+                );
+                is_sane = false
             }
-            // Issue 235/447 weird cmap
-            if is_sane && image.numcomps == 1 {
-                for i in 0..nr_channels {
-                    if !pcol_usage.contains(&(i as u8)) {
-                        is_sane = false;
-                        event_msg!(
-                            p_manager,
-                            EVT_WARNING,
-                            "Component mapping seems wrong. Trying to correct.\n",
-                        );
-                        break;
-                    }
-                }
-                if !is_sane {
-                    is_sane = true;
-                    for i in 0..nr_channels {
-                        let cmap = &mut pclr.cmap[i];
-                        cmap.mtyp = 1 as OPJ_BYTE;
-                        cmap.pcol = i as OPJ_BYTE;
-                    }
-                }
+            // See ISO 15444-1 Table I.14 – MTYPi field values
+            if cmap.mtyp != 0 && cmap.mtyp != 1 {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Invalid value for cmap[%d].mtyp = %d.\n",
+                    i as core::ffi::c_int,
+                    cmap.mtyp as core::ffi::c_int,
+                );
+                is_sane = false
+            } else if cmap.mtyp == 1 && cmap.pcol >= pclr.nr_channels {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Invalid palette column %d.\n",
+                    cmap.pcol as core::ffi::c_int,
+                );
+                is_sane = false
+            } else if cmap.mtyp == 0 && cmap.pcol != 0 {
+                // I.5.3.5 PCOL: If the value of the MTYP field for this channel is 0, then
+                // the value of this field shall be 0.
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Direct use at #%d however pcol=%d.\n",
+                    i as core::ffi::c_int,
+                    cmap.pcol as core::ffi::c_int,
+                );
+                is_sane = false
             }
-            if !is_sane {
-                return 0;
+        }
+        if !is_sane {
+            return 0;
+        }
+        // Issue 235/447 weird cmap: a palette which no channel uses
+        if image.numcomps == 1
+            && pclr.cmap.len() == pclr.nr_channels as usize
+            && pclr.cmap.iter().all(|cmap| cmap.mtyp == 0)
+        {
+            event_msg!(
+                p_manager,
+                EVT_WARNING,
+                "Component mapping seems wrong. Trying to correct.\n",
+            );
+            for (i, cmap) in pclr.cmap.iter_mut().enumerate() {
+                cmap.mtyp = 1 as OPJ_BYTE;
+                cmap.pcol = i as OPJ_BYTE;
             }
         }
     }
@@ -540,7 +491,7 @@ fn opj_jp2_apply_pclr(
     pclr: &opj_jp2_pclr,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
-    let nr_channels = pclr.nr_channels as usize;
+    let nr_columns = pclr.nr_channels as i32;
     let comps = if let Some(comps) = image.comps() {
         comps
     } else {
@@ -558,11 +509,6 @@ fn opj_jp2_apply_pclr(
             );
             return 0;
         }
-        // Ensure valid palette index.
-        if cmap.mtyp != 0 && i != cmap.pcol as usize {
-            event_msg!(p_manager, EVT_ERROR, "Invalid cmap: pcol != i.\n",);
-            return 0;
-        }
     }
 
     // Take the components out of the image.
@@ -570,7 +516,7 @@ fn opj_jp2_apply_pclr(
     let old_comps = old.comps().expect("Just taken");
 
     // Allocate new components.
-    if !image.alloc_comps(nr_channels as u32, true) {
+    if !image.alloc_comps(pclr.cmap.len() as u32, true) {
         event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
         return 0i32;
     }
@@ -615,7 +561,7 @@ fn opj_jp2_apply_pclr(
                     k = top_k
                 }
                 // The colour
-                *dst = pclr.entries[(k * nr_channels as i32 + pcol as i32) as usize] as i32;
+                *dst = pclr.entries[(k * nr_columns + pcol as i32) as usize] as i32;
             }
         }
     }
@@ -717,8 +663,9 @@ fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         event_msg!(p_manager, EVT_ERROR, "Only one CMAP box is allowed.\n",); // CMP^i
         return 0;
     }
-    let nr_channels = pclr.nr_channels as usize;
-    if buf.len() < nr_channels * 4 {
+    // one entry for each channel
+    let nr_channels = buf.len() / 4;
+    if nr_channels == 0 {
         event_msg!(p_manager, EVT_ERROR, "Insufficient data for CMAP box.\n",);
         return 0;
     }
-- 
2.43.0


From 77b1f57fa149f3ff15877e0fac4ab47a63fd740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 119/143] fix: take the component mapping box before the
 palette box too

---
 openjp2-rs/src/jp2.rs   | 28 +++++++++++++++++-----------
 openjp2-rs/src/types.rs |  2 ++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 9ef0263..bd42fc6 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -634,8 +634,8 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
             }
         }
     }
-    let jp2_pclr =
-        opj_jp2_pclr { channel, entries, nr_entries, nr_channels, cmap: Default::default() };
+    let cmap = std::mem::take(&mut jp2.color.jp2_cmap);
+    let jp2_pclr = opj_jp2_pclr { channel, entries, nr_entries, nr_channels, cmap };
     jp2.color.jp2_pclr = Some(jp2_pclr);
     1
 }
@@ -650,16 +650,13 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
 //
 // @return Returns true if successful, returns false otherwise
 fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
-    // Need nr_channels:
-    let mut pclr = if let Some(pclr) = &mut jp2.color.jp2_pclr {
-        pclr
-    } else {
-        event_msg!(p_manager, EVT_ERROR, "Need to read a PCLR box before the CMAP box.\n",);
-        return 0;
-    };
     // Part 1, I.5.3.5: 'There shall be at most one Component Mapping box
     // inside a JP2 Header box' :
-    if !pclr.cmap.is_empty() {
+    let has_cmap = match &jp2.color.jp2_pclr {
+        Some(pclr) => !pclr.cmap.is_empty(),
+        None => !jp2.color.jp2_cmap.is_empty(),
+    };
+    if has_cmap {
         event_msg!(p_manager, EVT_ERROR, "Only one CMAP box is allowed.\n",); // CMP^i
         return 0;
     }
@@ -681,7 +678,11 @@ fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
         let pcol = buf.read_u8().expect("buffer should have enough data");
         cmap.push(opj_jp2_cmap_comp { cmp, mtyp, pcol });
     }
-    pclr.cmap = cmap;
+    // the boxes may be in any order
+    match &mut jp2.color.jp2_pclr {
+        Some(pclr) => pclr.cmap = cmap,
+        None => jp2.color.jp2_cmap = cmap,
+    }
     1
 }
 
@@ -1797,6 +1798,10 @@ pub(crate) unsafe fn opj_jp2_read_header(
         event_msg!(p_manager, EVT_ERROR, "IHDR box_missing. Required.\n",);
         return 0i32;
     }
+    if !jp2.color.jp2_cmap.is_empty() {
+        event_msg!(p_manager, EVT_ERROR, "CMAP box without a PCLR box.\n",);
+        return 0i32;
+    }
 
     let ret = unsafe { opj_j2k_read_header(p_stream, &mut jp2.j2k, p_image, p_manager) };
 
@@ -2002,6 +2007,7 @@ pub(crate) fn opj_jp2_create(mut p_is_decoder: OPJ_BOOL) -> Option<opj_jp2> {
             icc_profile_len: 0 as OPJ_UINT32,
             jp2_cdef: None,
             jp2_pclr: None,
+            jp2_cmap: Vec::new(),
             jp2_has_colr: 0 as OPJ_BYTE,
         },
     };
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index a79bc2e..386b490 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -272,6 +272,8 @@ pub(crate) struct opj_jp2_color {
     pub icc_profile_len: OPJ_UINT32,
     pub jp2_cdef: Option<opj_jp2_cdef>,
     pub jp2_pclr: Option<opj_jp2_pclr>,
+    /// component mapping read before the palette
+    pub jp2_cmap: Vec<opj_jp2_cmap_comp>,
     pub jp2_has_colr: OPJ_BYTE,
 }
 
-- 
2.43.0


From 1875f2a8e24902f0c197c3fd5afafdfd0c45ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 120/143] fix: keep the opacity of a channel which gives way to
 a colour

---
 openjp2-rs/src/jp2.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index bd42fc6..f8e43f3 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -729,11 +729,10 @@ fn opj_jp2_apply_cdef(
                     numcomps,
                 );
             } else {
-                let mut cn_comp = comps[cn as usize];
+                comps[cn as usize].alpha = info.typ;
                 // Swap only if color channel
                 if cn != acn && info.typ == 0 {
-                    let acn_comp = &mut comps[acn as usize];
-                    std::mem::swap(&mut cn_comp, &mut (*acn_comp));
+                    comps.swap(cn as usize, acn as usize);
                     // Swap channels in following channel definitions, don't bother with j <= i that
                     // are already processed
                     for j in i..n {
@@ -746,8 +745,6 @@ fn opj_jp2_apply_cdef(
                         // asoc is related to color index. Do not update.
                     }
                 }
-                cn_comp.alpha = info.typ;
-                comps[cn as usize] = cn_comp;
             }
         }
     }
-- 
2.43.0


From 289dafd792322d1edb1e15958c3d4cfaffe96f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 121/143] fix: decode further areas and tiles of a file with a
 palette or channel definitions

---
 openjp2-rs/src/jp2.rs   | 43 +++++++++++++++++++++++++++++++++++------
 openjp2-rs/src/types.rs |  4 ++++
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index f8e43f3..145b2de 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -688,11 +688,12 @@ fn opj_jp2_read_cmap(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
 
 fn opj_jp2_apply_cdef(
     image: &mut opj_image_t,
-    color: &mut opj_jp2_color,
+    color: &opj_jp2_color,
     manager: &mut opj_event_mgr,
 ) {
-    let cdef = if let Some(cdef) = &mut color.jp2_cdef {
-        cdef
+    // channels are renumbered as they move: for this image only
+    let mut cdef = if let Some(cdef) = &color.jp2_cdef {
+        cdef.clone()
     } else {
         return;
     };
@@ -748,8 +749,6 @@ fn opj_jp2_apply_cdef(
             }
         }
     }
-    cdef.info.clear();
-    color.jp2_cdef = None;
 }
 
 // jp2_apply_cdef()
@@ -925,6 +924,10 @@ pub(crate) fn opj_jp2_apply_color_postprocessing(
         }
     }
     if jp2.ignore_pclr_cmap_cdef == 0 {
+        jp2.codestream_comps = p_image.comps().unwrap_or_default().to_vec();
+        for comp in &mut jp2.codestream_comps {
+            comp.data = std::ptr::null_mut();
+        }
         if opj_jp2_check_color(p_image, &mut jp2.color, p_manager) == 0 {
             return 0;
         }
@@ -939,18 +942,38 @@ pub(crate) fn opj_jp2_apply_color_postprocessing(
         }
         // Apply the color space if needed
         if jp2.color.jp2_cdef.is_some() {
-            opj_jp2_apply_cdef(p_image, &mut jp2.color, p_manager);
+            opj_jp2_apply_cdef(p_image, &jp2.color, p_manager);
         }
+        jp2.channels = p_image.comps;
     }
     1
 }
 
+/// Gives an image, whose components an earlier decode made channels of, those of the codestream.
+fn opj_jp2_restore_components(jp2: &mut opj_jp2, p_image: &mut opj_image) -> OPJ_BOOL {
+    let saved = std::mem::take(&mut jp2.codestream_comps);
+    if saved.is_empty() || p_image.comps != jp2.channels {
+        return 1;
+    }
+    if !p_image.alloc_comps(saved.len() as u32, true) {
+        return 0;
+    }
+    p_image
+        .comps_mut()
+        .expect("Just allocated")
+        .copy_from_slice(&saved);
+    1
+}
+
 pub(crate) fn opj_jp2_decode(
     jp2: &mut opj_jp2,
     p_stream: &mut Stream,
     p_image: &mut opj_image,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
+    if opj_jp2_restore_components(jp2, p_image) == 0 {
+        return 0;
+    }
     // J2K decoding
     if opj_j2k_decode(&mut jp2.j2k, p_stream, p_image, p_manager) == 0 {
         event_msg!(p_manager, EVT_ERROR, "Failed to decode the codestream in the JP2 file\n",);
@@ -1936,6 +1959,9 @@ pub(crate) fn opj_jp2_set_decode_area(
     p_end_y: OPJ_INT32,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
+    if opj_jp2_restore_components(p_jp2, p_image) == 0 {
+        return 0;
+    }
     opj_j2k_set_decode_area(
         &mut p_jp2.j2k,
         p_image,
@@ -1959,6 +1985,9 @@ pub(crate) fn opj_jp2_get_tile(
         EVT_WARNING,
         "JP2 box which are after the codestream will not be read by this function.\n",
     );
+    if opj_jp2_restore_components(p_jp2, p_image) == 0 {
+        return 0;
+    }
     if opj_j2k_get_tile(&mut p_jp2.j2k, p_stream, p_image, p_manager, tile_index) == 0 {
         event_msg!(p_manager, EVT_ERROR, "Failed to decode the codestream in the JP2 file\n",);
         return 0i32;
@@ -1990,6 +2019,8 @@ pub(crate) fn opj_jp2_create(mut p_is_decoder: OPJ_BOOL) -> Option<opj_jp2> {
         minversion: 0,
         cl: Vec::new(),
         comps: Vec::new(),
+        codestream_comps: Vec::new(),
+        channels: std::ptr::null_mut(),
         j2k_codestream_offset: 0,
         jpip_iptr_offset: 0,
         jpip_on: 0,
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 386b490..5ac48e3 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -255,6 +255,10 @@ pub(crate) struct opj_jp2 {
     pub minversion: OPJ_UINT32,
     pub cl: Vec<u32>,
     pub comps: Vec<opj_jp2_comps>,
+    /// components of the image last decoded before they became channels
+    pub codestream_comps: Vec<opj_image_comp_t>,
+    /// the channels they became
+    pub channels: *mut opj_image_comp_t,
     pub j2k_codestream_offset: OPJ_OFF_T,
     pub jpip_iptr_offset: OPJ_OFF_T,
     pub jpip_on: OPJ_BOOL,
-- 
2.43.0


From 928e44f8c4508e37f3f0b6e62564cf7a0d2a0f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 122/143] fix: apply a palette to an area without samples

---
 openjp2-rs/src/jp2.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 145b2de..ca84777 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -500,7 +500,8 @@ fn opj_jp2_apply_pclr(
     };
     for (i, cmap) in pclr.cmap.iter().enumerate() {
         // Ensure that the component data is not null.
-        if comps[cmap.cmp as usize].data.is_null() {
+        let comp = &comps[cmap.cmp as usize];
+        if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
             event_msg!(
                 p_manager,
                 EVT_ERROR,
@@ -530,7 +531,9 @@ fn opj_jp2_apply_pclr(
         *new_comp = *old_comp;
         // The samples still belong to the old component.
         new_comp.data = std::ptr::null_mut();
-        if !new_comp.alloc_data() {
+        // The decoded area may have no samples of a component.
+        let is_empty = old_comp.data.is_null();
+        if !is_empty && !new_comp.alloc_data() {
             event_msg!(p_manager, EVT_ERROR, "Memory allocation failure in opj_jp2_apply_pclr().\n",);
             return 0;
         }
@@ -540,6 +543,10 @@ fn opj_jp2_apply_pclr(
             new_comp.sgnd = channel.sign as OPJ_UINT32;
         }
 
+        if is_empty {
+            continue;
+        }
+
         // Palette mapping:
         let src = old_comp.data().expect("Source data shouldn't be null"); // verified above
         let dst = new_comp
-- 
2.43.0


From ee44b81295cceff555cd590c9ccdee382c318a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 123/143] fix: double single high-pass samples in the
 irreversible transform

A row or column of one sample at an odd position is a high-pass
coefficient: the inverse transform halves it, so the forward transform has
to double it, as the reversible one does.
---
 openjp2-rs/src/dwt.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 95aa420..a24cfd2 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -757,6 +757,11 @@ unsafe extern "C" fn opj_dwt_encode_and_deinterleave_h_one_row_real(
     let sn = (width.wrapping_add(if even != 0 { 1 } else { 0 }) >> 1i32) as OPJ_INT32;
     let dn = width.wrapping_sub(sn as OPJ_UINT32) as OPJ_INT32;
     if width == 1u32 {
+        // A single sample at an odd position is a high-pass coefficient,
+        // which the inverse transform halves.
+        if even == 0 {
+            *row *= 2.0;
+        }
         return;
     }
     memcpy(
@@ -1081,6 +1086,11 @@ unsafe extern "C" fn opj_dwt_encode_and_deinterleave_v_real(
     let mut a: OPJ_INT32 = 0;
     let mut b: OPJ_INT32 = 0;
     if height == 1u32 {
+        if even == 0 {
+            for c in 0..cols as isize {
+                *array.offset(c) *= 2.0;
+            }
+        }
         return;
     }
     opj_dwt_fetch_cols_vertical_pass(arrayIn, tmpIn, height, stride_width, cols);
-- 
2.43.0


From 109f5d92e7fa299b98020d7ed440419b3bd5d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 124/143] fix: reach the requested quality of a layer

The search for a threshold kept the last one which fell short of the
target. Where a code-block is one step of the rate-distortion curve, as in
small tiles, that left layers tens of dB below a quality which the image
can be coded with. Keep the highest threshold which reaches the target, and
use all passes where none does.
---
 openjp2-rs/src/tcd.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 647bf20..4f80673 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -535,6 +535,13 @@ unsafe fn opj_tcd_rateallocate(
             let mut t2 = opj_t2_create((*tcd).image, cp); // fixed_quality
             let mut thresh = 0 as OPJ_FLOAT64;
             let mut last_layer_allocation_ok = false;
+            let is_cinema_or_imf = (*cp).rsiz as core::ffi::c_int >= 0x3i32
+                && (*cp).rsiz as core::ffi::c_int <= 0x6i32
+                || (*cp).rsiz as core::ffi::c_int >= 0x400i32
+                    && (*cp).rsiz as core::ffi::c_int <= 0x900i32 | 0x9Bi32;
+            let keep_target = !is_cinema_or_imf
+                && (*cp).m_specific_param.m_enc.m_quality_layer_alloc_strategy
+                    == J2K_QUALITY_LAYER_ALLOCATION_STRATEGY::FIXED_DISTORTION_RATIO;
 
             if t2.is_null() {
                 return 0i32;
@@ -557,11 +564,7 @@ unsafe fn opj_tcd_rateallocate(
                 if (*cp).m_specific_param.m_enc.m_quality_layer_alloc_strategy
                     == J2K_QUALITY_LAYER_ALLOCATION_STRATEGY::FIXED_DISTORTION_RATIO
                 {
-                    if (*cp).rsiz as core::ffi::c_int >= 0x3i32
-                        && (*cp).rsiz as core::ffi::c_int <= 0x6i32
-                        || (*cp).rsiz as core::ffi::c_int >= 0x400i32
-                            && (*cp).rsiz as core::ffi::c_int <= 0x900i32 | 0x9Bi32
-                    {
+                    if is_cinema_or_imf {
                         if opj_t2_encode_packets(
                             t2,
                             (*tcd).tcd_tileno,
@@ -601,11 +604,12 @@ unsafe fn opj_tcd_rateallocate(
                             (cumdisto[layno.wrapping_sub(1u32) as usize])
                                 + (*tcd_tile).distolayer[layno as usize]
                         };
+                        // Keep the highest threshold which reaches the target.
                         if distoachieved < distotarget {
-                            hi = thresh;
-                            stable_thresh = thresh
+                            hi = thresh
                         } else {
-                            lo = thresh
+                            lo = thresh;
+                            stable_thresh = thresh
                         }
                     }
                 } else {
@@ -647,7 +651,12 @@ unsafe fn opj_tcd_rateallocate(
                 i += 1;
             }
             goodthresh = if stable_thresh == 0 as core::ffi::c_double {
-                thresh
+                if keep_target {
+                    // The target is out of reach: use all passes
+                    -1.0
+                } else {
+                    thresh
+                }
             } else {
                 stable_thresh
             };
-- 
2.43.0


From 7e5c36688394b36c5fed6978c1940ae5d2b967a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 125/143] fix: no unlimited rate where the headers leave
 nothing of it

The bytes of the tile-part headers are taken off the bytes which the rate
of a layer allows. Where nothing was left, the negative rest made the layer
take everything, instead of the minimum that is kept otherwise.
---
 openjp2-rs/src/j2k.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 702b7b9..e17136f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4584,7 +4584,11 @@ fn opj_j2k_update_rates(
                             * (l_y1 - l_y0) as OPJ_UINT32 as core::ffi::c_double
                             / (*l_rates * l_bits_empty as OPJ_FLOAT32) as core::ffi::c_double)
                             as OPJ_FLOAT32
-                            - l_offset
+                            - l_offset;
+                        // Zero or less would mean no limit
+                        if *l_rates < 1.0 {
+                            *l_rates = 1.0
+                        }
                     }
                     l_rates = l_rates.offset(1);
                     k += 1;
-- 
2.43.0


From e8a4c4ff0b39bbf02b379c5abe5da13b2563e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 126/143] fix: let the rate allocation leave out the steepest
 code-blocks

The search for a threshold started below the steepest single pass, but
opj_tcd_makelayer() takes several passes together, which may be steeper
when the first ones cost the bytes of the others. Such code-blocks were in
every first layer, whatever the rate.
---
 openjp2-rs/src/tcd.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 4f80673..476de4f 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -454,6 +454,15 @@ unsafe fn opj_tcd_rateallocate(
                                         max = rdslope
                                     }
                                 }
+                                // opj_tcd_makelayer() takes passes together, and from the
+                                // first one on they can be steeper than each of them
+                                if (*pass).rate != 0 {
+                                    rdslope = (*pass).distortiondec
+                                        / (*pass).rate as core::ffi::c_double;
+                                    if rdslope > max {
+                                        max = rdslope
+                                    }
+                                }
                                 passno += 1;
                             }
 
-- 
2.43.0


From f18e5ce96030c38f96bf5a32047b09c64c11ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 127/143] fix: refuse numbers of guard bits which are no
 numbers

---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e17136f..b93be59 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12290,7 +12290,7 @@ pub(crate) unsafe fn opj_j2k_encoder_set_extra_options(
         } else if option.starts_with("GUARD_BITS=") {
             let mut tileno: OPJ_UINT32 = 0;
             let mut cp = &mut p_j2k.m_cp;
-            let mut numgbits = option[11..].parse::<i32>().unwrap_or_default();
+            let mut numgbits = option[11..].parse::<i32>().unwrap_or(-1);
             if !(0..=7).contains(&numgbits) {
                 event_msg!(
                     p_manager,
-- 
2.43.0


From e842da169561d11bccaf8c30c7cd38a07e21247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 128/143] fix: refuse negative tile sizes

---
 openjp2-rs/src/j2k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index b93be59..7937871 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7302,11 +7302,11 @@ pub(crate) fn opj_j2k_setup_encoder(
             return 0i32;
         }
         if parameters.tile_size_on != 0 {
-            if (*cp).tdx == 0u32 {
+            if parameters.cp_tdx <= 0i32 {
                 event_msg!(p_manager, EVT_ERROR, "Invalid tile width\n",);
                 return 0i32;
             }
-            if (*cp).tdy == 0u32 {
+            if parameters.cp_tdy <= 0i32 {
                 event_msg!(p_manager, EVT_ERROR, "Invalid tile height\n",);
                 return 0i32;
             }
-- 
2.43.0


From 92c0474730df1fe1abd1ef6cc5c6088a116fde4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 129/143] fix: encode images with much larger tiles

---
 openjp2-rs/src/j2k.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7937871..c1cef9e 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4560,20 +4560,18 @@ fn opj_j2k_update_rates(
                     (*l_cp).ty0.wrapping_add(i.wrapping_mul((*l_cp).tdy)) as OPJ_INT32,
                     (*l_image).y0 as OPJ_INT32,
                 );
-                l_x1 = opj_int_min(
+                l_x1 = opj_uint_min(
                     (*l_cp)
                         .tx0
-                        .wrapping_add(j.wrapping_add(1u32).wrapping_mul((*l_cp).tdx))
-                        as OPJ_INT32,
-                    (*l_image).x1 as OPJ_INT32,
-                );
-                l_y1 = opj_int_min(
+                        .saturating_add((j + 1).saturating_mul((*l_cp).tdx)),
+                    (*l_image).x1,
+                ) as OPJ_INT32;
+                l_y1 = opj_uint_min(
                     (*l_cp)
                         .ty0
-                        .wrapping_add(i.wrapping_add(1u32).wrapping_mul((*l_cp).tdy))
-                        as OPJ_INT32,
-                    (*l_image).y1 as OPJ_INT32,
-                );
+                        .saturating_add((i + 1).saturating_mul((*l_cp).tdy)),
+                    (*l_image).y1,
+                ) as OPJ_INT32;
                 l_rates = (*l_tcp).rates.as_mut_ptr();
                 // Modification of the RATE >>
                 k = 0 as OPJ_UINT32;
@@ -4638,8 +4636,11 @@ fn opj_j2k_update_rates(
         let mut l_tile_size = 0u64;
         i = 0 as OPJ_UINT32;
         while i < (*l_image).numcomps {
-            l_tile_size += opj_uint_ceildiv((*l_cp).tdx, (*l_img_comp).dx) as u64
-                * opj_uint_ceildiv((*l_cp).tdy, (*l_img_comp).dy) as u64
+            // the part of a tile which is outside of the image takes no room
+            let l_width = opj_uint_min((*l_cp).tdx, (*l_image).x1 - (*l_cp).tx0);
+            let l_height = opj_uint_min((*l_cp).tdy, (*l_image).y1 - (*l_cp).ty0);
+            l_tile_size += opj_uint_ceildiv(l_width, (*l_img_comp).dx) as u64
+                * opj_uint_ceildiv(l_height, (*l_img_comp).dy) as u64
                 * (*l_img_comp).prec as u64;
             l_img_comp = l_img_comp.offset(1);
             i += 1;
-- 
2.43.0


From fc142bcb10280aa68e778a1763f9bbaabbd42c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:53 +0000
Subject: [PATCH 130/143] fix: refuse empty progression order changes

---
 openjp2-rs/src/j2k.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index c1cef9e..0ce3e9a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6815,6 +6815,13 @@ fn opj_j2k_check_encoder_parameters(
         event_msg!(p_manager, EVT_ERROR, "Invalid progression order\n");
         return false;
     }
+    // ISO 15444-1 A.6.6: no entry of a POC marker segment is empty
+    if pocs.iter().any(|poc| {
+        poc.resno0 > 32 || poc.resno0 >= poc.resno1 || poc.compno0 >= poc.compno1 || poc.layno1 == 0
+    }) {
+        event_msg!(p_manager, EVT_ERROR, "Invalid progression order change\n");
+        return false;
+    }
     if parameters.csty & !0x7 != 0 || parameters.mode & !0x3f != 0 {
         event_msg!(p_manager, EVT_ERROR, "Invalid coding style or code-block style\n");
         return false;
-- 
2.43.0


From 90963b75858e313828a2a83be5f9291ce6d2df60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 131/143] fix: bound the layers and resolutions of progression
 order changes

---
 openjp2-rs/src/j2k.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 0ce3e9a..ffc1cb5 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7413,8 +7413,11 @@ pub(crate) fn opj_j2k_setup_encoder(
                         }
                         (*tcp_poc).resno0 = parameters.POC[i as usize].resno0;
                         (*tcp_poc).compno0 = parameters.POC[i as usize].compno0;
-                        (*tcp_poc).layno1 = parameters.POC[i as usize].layno1;
-                        (*tcp_poc).resno1 = parameters.POC[i as usize].resno1;
+                        (*tcp_poc).layno1 = opj_uint_min(
+                            parameters.POC[i as usize].layno1,
+                            parameters.tcp_numlayers as OPJ_UINT32,
+                        );
+                        (*tcp_poc).resno1 = opj_uint_min(parameters.POC[i as usize].resno1, 33);
                         (*tcp_poc).compno1 = opj_uint_min(
                             parameters.POC[i as usize].compno1,
                             image.numcomps,
-- 
2.43.0


From 66004359371f7a56217daa0e4645428f57046a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 132/143] fix: shift all samples which the irreversible
 transform can take

---
 openjp2-rs/src/tcd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 476de4f..3f3c653 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2737,7 +2737,7 @@ unsafe fn opj_tcd_dc_level_shift_encode(mut p_tcd: *mut opj_tcd_t) -> OPJ_BOOL {
             i = 0 as OPJ_SIZE_T;
             while i < l_nb_elem {
                 *(l_current_ptr as *mut OPJ_FLOAT32) =
-                    (*l_current_ptr - (*l_tccp).m_dc_level_shift) as OPJ_FLOAT32;
+                    (*l_current_ptr as i64 - (*l_tccp).m_dc_level_shift as i64) as OPJ_FLOAT32;
                 l_current_ptr = l_current_ptr.offset(1);
                 i += 1;
             }
-- 
2.43.0


From 121d485efeee7661f4edf7a4d9b4e5849d3f6ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 133/143] fix: force one decomposition level for 4K cinema

---
 openjp2-rs/src/j2k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index ffc1cb5..d752490 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6107,8 +6107,8 @@ fn opj_j2k_set_cinema_parameters(
                 if parameters.numresolution < 2i32 {
                     event_msg!(p_manager, EVT_WARNING,
                               "JPEG 2000 Profile-4 (4k dc profile) requires:\nNumber of decomposition levels >= 1 && <= 6\n-> Number of decomposition levels forced to 1 (rather than %d)\n",
-                              parameters.numresolution + 1i32);
-                    parameters.numresolution = 1i32
+                              parameters.numresolution - 1i32);
+                    parameters.numresolution = 2i32
                 } else if parameters.numresolution > 7i32 {
                     event_msg!(p_manager, EVT_WARNING,
                               "JPEG 2000 Profile-4 (4k dc profile) requires:\nNumber of decomposition levels >= 1 && <= 6\n-> Number of decomposition levels forced to 6 (rather than %d)\n",
-- 
2.43.0


From 0acd9c19f8edeac43d734340c34f90ab334dd072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 134/143] fix: no cinema profile with sub-sampled components

---
 openjp2-rs/src/j2k.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index d752490..561ff32 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6208,6 +6208,16 @@ fn opj_j2k_is_cinema_compliant(
                           (*image.comps.offset(i as isize)).prec, tmp_str);
                 return 0i32;
             }
+            // Sub-sampling
+            if (*image.comps.offset(i as isize)).dx != 1u32
+                || (*image.comps.offset(i as isize)).dy != 1u32
+            {
+                event_msg!(p_manager, EVT_WARNING,
+                          "JPEG 2000 Profile-3 and 4 (2k/4k dc profile) require:\nNo sub-sampling-> Component %d of input image (%d x %d) is not compliant\n-> Non-profile-3 codestream will be generated\n", i,
+                          (*image.comps.offset(i as isize)).dx,
+                          (*image.comps.offset(i as isize)).dy);
+                return 0i32;
+            }
             i += 1;
         }
         // Image size
-- 
2.43.0


From c423937f00d676caa492623b0cd4f79205339557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 135/143] fix: encode all components with the progression order
 changes of 4K cinema

---
 openjp2-rs/src/j2k.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 561ff32..fc50029 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6030,6 +6030,7 @@ pub(crate) fn opj_j2k_create_compress() -> Option<opj_j2k> {
 fn opj_j2k_initialise_4K_poc(
     mut POC: *mut opj_poc_t,
     mut numres: core::ffi::c_int,
+    mut numcomps: OPJ_UINT32,
 ) -> core::ffi::c_int {
     unsafe {
         (*POC.offset(0)).tile = 1 as OPJ_UINT32;
@@ -6037,14 +6038,14 @@ fn opj_j2k_initialise_4K_poc(
         (*POC.offset(0)).compno0 = 0 as OPJ_UINT32;
         (*POC.offset(0)).layno1 = 1 as OPJ_UINT32;
         (*POC.offset(0)).resno1 = (numres - 1i32) as OPJ_UINT32;
-        (*POC.offset(0)).compno1 = 3 as OPJ_UINT32;
+        (*POC.offset(0)).compno1 = numcomps;
         (*POC.offset(0)).prg1 = OPJ_CPRL;
         (*POC.offset(1)).tile = 1 as OPJ_UINT32;
         (*POC.offset(1)).resno0 = (numres - 1i32) as OPJ_UINT32;
         (*POC.offset(1)).compno0 = 0 as OPJ_UINT32;
         (*POC.offset(1)).layno1 = 1 as OPJ_UINT32;
         (*POC.offset(1)).resno1 = numres as OPJ_UINT32;
-        (*POC.offset(1)).compno1 = 3 as OPJ_UINT32;
+        (*POC.offset(1)).compno1 = numcomps;
         (*POC.offset(1)).prg1 = OPJ_CPRL;
         2i32
     }
@@ -6138,8 +6139,11 @@ fn opj_j2k_set_cinema_parameters(
         // Progression order changes for 4K, disallowed for 2K
         if parameters.rsiz as core::ffi::c_int == 0x4i32 {
             parameters.numpocs =
-                opj_j2k_initialise_4K_poc(parameters.POC.as_mut_ptr(), parameters.numresolution)
-                    as OPJ_UINT32
+                opj_j2k_initialise_4K_poc(
+                    parameters.POC.as_mut_ptr(),
+                    parameters.numresolution,
+                    image.numcomps,
+                ) as OPJ_UINT32
         } else {
             parameters.numpocs = 0 as OPJ_UINT32
         }
-- 
2.43.0


From e41eb11c2d08684a1c6ae11045483fb8075c4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 136/143] fix: check the precincts of all resolutions for IMF
 profiles

---
 openjp2-rs/src/j2k.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index fc50029..6fe537c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6744,11 +6744,16 @@ fn opj_j2k_is_imf_compliant(
                 ret = 0i32
             }
         } else {
+            // The sizes are given from the highest resolution on, and the
+            // last ones are halved for the resolutions below.
             let mut i_0: core::ffi::c_int = 0;
-            i_0 = 0i32;
-            while i_0 < parameters.res_spec {
-                if parameters.prcw_init[i_0 as usize] != 256i32
-                    || parameters.prch_init[i_0 as usize] != 256i32
+            while i_0 < parameters.numresolution {
+                let last = parameters.res_spec.min(i_0 + 1) - 1i32;
+                let size = if i_0 + 1 < parameters.numresolution { 256i32 } else { 128i32 };
+                if parameters.csty & 0x1i32 == 0
+                    || last < 0
+                    || parameters.prcw_init[last as usize] >> (i_0 - last).min(31) != size
+                    || parameters.prch_init[last as usize] >> (i_0 - last).min(31) != size
                 {
                     event_msg!(p_manager, EVT_WARNING,
                               "IMF profiles require PPx = PPy = 7 for NLLL band, else 8.\n-> Supplied values are different from that.\n-> Non-IMF codestream will be generated\n");
-- 
2.43.0


From 18f6c9615bb6ecd5d08897b4c13acd6a6b940eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 137/143] fix: refuse region-of-interest shifts which cannot be
 signalled or decoded

---
 openjp2-rs/src/j2k.rs | 10 ++++++++++
 openjp2-rs/src/t2.rs  | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 6fe537c..a320b60 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7318,6 +7318,16 @@ pub(crate) fn opj_j2k_setup_encoder(
                 return 0i32;
             }
         }
+        // SPrgn is one byte
+        if parameters.roi_compno != -1i32 && !(0i32..=255i32).contains(&parameters.roi_shift) {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Invalid region of interest shift: %d not in range [0,255]\n",
+                parameters.roi_shift,
+            );
+            return 0i32;
+        }
         // calculate other encoding parameters
         if (*cp).tx0 > image.x0 || (*cp).ty0 > image.y0 || image.x0 >= image.x1 || image.y0 >= image.y1
         {
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 5066296..e763e48 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -667,6 +667,18 @@ unsafe fn opj_t2_encode_packet(
                         );
                         return 0i32;
                     }
+                    // and such a one is not decoded by opj_t1_decode_cblk()
+                    let roishift = (*(*tcp).tccps.offset(compno as isize)).roishift;
+                    if roishift != 0 && (*cblk).numbps as OPJ_INT32 + roishift > 30i32 {
+                        event_msg!(
+                            p_manager,
+                            EVT_ERROR,
+                            "opj_t2_encode_packet(): a code-block has %u bit-planes, too many for a region of interest shift of %d\n",
+                            (*cblk).numbps,
+                            roishift,
+                        );
+                        return 0i32;
+                    }
                     opj_tgt_setvalue(
                         (*prc).imsbtree,
                         cblkno,
-- 
2.43.0


From f4c69f21159359a1e9b21f086522744165dffd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 138/143] fix: signal no profile which is unknown or not
 enabled

---
 openjp2-rs/src/j2k.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a320b60..35159e7 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7244,7 +7244,9 @@ pub(crate) fn opj_j2k_setup_encoder(
                 event_msg!(p_manager, EVT_WARNING,
                           "JPEG 2000 Part-2 profile defined\nbut no Part-2 extension enabled.\nProfile set to NONE.\n");
                 parameters.rsiz = 0 as OPJ_UINT16
-            } else if parameters.rsiz as core::ffi::c_int != 0x8000i32 | 0x100i32 {
+            } else if parameters.rsiz as core::ffi::c_int != 0x8000i32 | 0x100i32
+                || parameters.mct_data.is_null()
+            {
                 event_msg!(
                     p_manager,
                     EVT_WARNING,
@@ -7252,6 +7254,14 @@ pub(crate) fn opj_j2k_setup_encoder(
                 );
                 parameters.rsiz = 0 as OPJ_UINT16
             }
+        } else if parameters.rsiz as core::ffi::c_int > 0x2i32 {
+            event_msg!(
+                p_manager,
+                EVT_WARNING,
+                "Unknown profile %d\nProfile set to NONE.\n",
+                parameters.rsiz as core::ffi::c_int,
+            );
+            parameters.rsiz = 0 as OPJ_UINT16
         }
         // copy user encoding parameters
         (*cp).m_specific_param.m_enc.m_max_comp_size = parameters.max_comp_size as OPJ_UINT32;
-- 
2.43.0


From f32bdc1ee99e9c5a55a0df80fab058dbe2f7c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 139/143] fix: limit the components of small cinema images

---
 openjp2-rs/src/j2k.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 35159e7..2b0fbd4 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7427,7 +7427,14 @@ pub(crate) fn opj_j2k_setup_encoder(
                 } else {
                     (*tcp).rates[j as usize] = parameters.tcp_rates[j as usize]
                 }
-                if !fixed_distoratio && (*tcp).rates[j as usize] as core::ffi::c_double <= 1.0f64 {
+                // A cinema profile limits the size of the components as well
+                let limited = (*cp).rsiz as core::ffi::c_int >= 0x3i32
+                    && (*cp).rsiz as core::ffi::c_int <= 0x6i32
+                    && (*tcp).rates[j as usize] > 0.0f32;
+                if !fixed_distoratio
+                    && !limited
+                    && (*tcp).rates[j as usize] as core::ffi::c_double <= 1.0f64
+                {
                     (*tcp).rates[j as usize] = 0.0f64 as OPJ_FLOAT32
                     // force lossless
                 }
-- 
2.43.0


From fe62bcd098c4ac6f606099e5798f7211f7091020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 140/143] fix: take no more coding passes by the matrix than
 there are

---
 openjp2-rs/src/tcd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 3f3c653..0b7a43b 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -303,6 +303,8 @@ unsafe fn opj_tcd_makelayer_fixed(
                                     }
                                 }
                             } // compno
+                            // The next layer can have fewer bit-planes than this one
+                            value = value.max(0);
                             if layno == 0u32 {
                                 (*cblk).numpassesinlayers = 0 as OPJ_UINT32
                             } // resno
@@ -321,6 +323,8 @@ unsafe fn opj_tcd_makelayer_fixed(
                                     .wrapping_mul(value as OPJ_UINT32)
                                     .wrapping_add((*cblk).numpassesinlayers)
                             }
+                            // The matrix can ask for more bit-planes than there are
+                            n = opj_uint_min(n, (*cblk).totalpasses);
                             (*layer).numpasses = n.wrapping_sub((*cblk).numpassesinlayers);
                             if (*layer).numpasses != 0 {
                                 if (*cblk).numpassesinlayers == 0u32 {
-- 
2.43.0


From 22e4b651cf6f423bd7425d20b97c788fbecd1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:54 +0000
Subject: [PATCH 141/143] fix: no cinema profile with an image offset

---
 openjp2-rs/src/j2k.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 2b0fbd4..b63b1dc 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -6188,6 +6188,13 @@ fn opj_j2k_is_cinema_compliant(
 ) -> OPJ_BOOL {
     unsafe {
         let mut i: OPJ_UINT32 = 0;
+        // Image origin
+        if image.x0 != 0u32 || image.y0 != 0u32 {
+            event_msg!(p_manager, EVT_WARNING,
+                      "JPEG 2000 Profile-3 and 4 (2k/4k dc profile) require:\nimage origin at 0,0-> %d,%d is not compliant\n-> Non-profile-3 codestream will be generated\n",
+                      image.x0, image.y0);
+            return 0i32;
+        }
         // Number of components
         if image.numcomps != 3u32 {
             event_msg!(p_manager, EVT_WARNING,
-- 
2.43.0


From 96dec4b0df2bceb196198fc7080cd0f55de7ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:14 +0000
Subject: [PATCH 142/143] fix: count no tile-parts for resolutions which do not
 exist

---
 openjp2-rs/src/j2k.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index b63b1dc..eae060c 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -2552,14 +2552,12 @@ fn opj_j2k_write_poc_in_memory(
         let mut l_poc_size: OPJ_UINT32 = 0;
         let mut l_image = std::ptr::null_mut::<opj_image_t>();
         let mut l_tcp = std::ptr::null_mut::<opj_tcp_t>();
-        let mut l_tccp = std::ptr::null_mut::<opj_tccp_t>();
         let mut l_current_poc = std::ptr::null_mut::<opj_poc_t>();
         let mut l_poc_room: OPJ_UINT32 = 0;
         // preconditions
         // Lpoc
         l_tcp =
             &mut *p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize) as *mut opj_tcp_t; // LYEpoc_i
-        l_tccp = &mut *(*l_tcp).tccps.offset(0) as *mut opj_tccp_t; // REpoc_i
         l_image = p_j2k.m_private_image; // CEpoc_i
         l_nb_comp = (*l_image).numcomps; // Ppoc_i
         l_nb_poc = (1u32).wrapping_add((*l_tcp).numpocs);
@@ -2593,18 +2591,6 @@ fn opj_j2k_write_poc_in_memory(
             l_current_data = l_current_data.offset(l_poc_room as isize);
             opj_write_bytes(l_current_data, (*l_current_poc).prg as OPJ_UINT32, 1 as OPJ_UINT32);
             l_current_data = l_current_data.offset(1);
-            // change the value of the max layer according to the actual number of layers in the
-            // file, components and resolutions
-            (*l_current_poc).layno1 =
-                opj_int_min((*l_current_poc).layno1 as OPJ_INT32, (*l_tcp).numlayers as OPJ_INT32)
-                    as OPJ_UINT32;
-            (*l_current_poc).resno1 = opj_int_min(
-                (*l_current_poc).resno1 as OPJ_INT32,
-                (*l_tccp).numresolutions as OPJ_INT32,
-            ) as OPJ_UINT32;
-            (*l_current_poc).compno1 =
-                opj_int_min((*l_current_poc).compno1 as OPJ_INT32, l_nb_comp as OPJ_INT32)
-                    as OPJ_UINT32;
             l_current_poc = l_current_poc.offset(1);
             i += 1;
         }
@@ -7470,7 +7456,11 @@ pub(crate) fn opj_j2k_setup_encoder(
                             parameters.POC[i as usize].layno1,
                             parameters.tcp_numlayers as OPJ_UINT32,
                         );
-                        (*tcp_poc).resno1 = opj_uint_min(parameters.POC[i as usize].resno1, 33);
+                        (*tcp_poc).resno1 = opj_uint_min(
+                            parameters.POC[i as usize].resno1,
+                            (parameters.numresolution as OPJ_UINT32)
+                                .max(parameters.POC[i as usize].resno0 + 1),
+                        );
                         (*tcp_poc).compno1 = opj_uint_min(
                             parameters.POC[i as usize].compno1,
                             image.numcomps,
-- 
2.43.0


From 7cad9299cd0bd6ca340f5307427eb98b05c64238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 143/143] fix: decode regions in turn with packed packet
 headers

---
 openjp2-rs/src/j2k.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index eae060c..883e405 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3375,6 +3375,10 @@ fn opj_j2k_merge_ppt(mut p_tcp: *mut opj_tcp_t, mut p_manager: &mut opj_event_mg
 
         assert!(!p_tcp.is_null());
         if !(*p_tcp).ppt_buffer.is_null() {
+            if (*p_tcp).ppt_markers.is_null() {
+                // a single tile, which was kept, is decoded again
+                return 1i32;
+            }
             event_msg!(p_manager, EVT_ERROR, "opj_j2k_merge_ppt() has already been called\n",);
             return 0i32;
         }
@@ -9706,6 +9710,12 @@ pub(crate) fn opj_j2k_decode_tile(
         } else {
             p_j2k.m_private_image
         };
+        if !(*l_tcp).ppt_buffer.is_null() {
+            // the packed packet headers are read from their start, also when
+            // a tile which was kept is decoded again
+            (*l_tcp).ppt_data = (*l_tcp).ppt_buffer;
+            (*l_tcp).ppt_len = (*l_tcp).ppt_data_size
+        }
         if opj_tcd_decode_tile(
             p_j2k.m_tcd,
             (*l_image_for_bounds).x0,
-- 
2.43.0

