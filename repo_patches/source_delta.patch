From 7d331a43878c7703f63e84b1d1abd1ef75a314f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:22 +0000
Subject: [PATCH 01/21] fix: ignore seeds whose weight has become exactly zero

The documentation says seeds with non-negative weight are ignored, but a seed
reset to zero by an earlier cell started a new cell (and hit the debug
assertion in Cell::new).
---
 src/resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 8cc6b7d..29d93d7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,7 +93,7 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() > 0. {
+                if events[seed].weight() >= 0. {
                     return;
                 }
                 trace!("New cell around event {}", events[seed].id());
-- 
2.43.0


From caabee24212ee9a4dbe4cff80a783ff63edfe703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 02/21] fix: write vanishing weights for events discarded by
 unweighting

With several weights per event, discarded events kept their original
weights in the output. Events ignored during resampling lost their
weight if only a single weight was used.
---
 src/cres.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 16838ed..70f5140 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -185,7 +185,15 @@ where
         let nevents = events.len();
         info!("Read {nevents} events");
 
-        events.retain(|e| !e.outgoing().is_empty());
+        // Ignored events keep their weights
+        let mut weights = vec![crate::event::Weights::default(); nevents];
+        events.retain(|e| {
+            let keep = !e.outgoing().is_empty();
+            if !keep {
+                weights[e.id] = e.weights.read().clone();
+            }
+            keep
+        });
         if events.len() < nevents {
             warn!(
                 "Ignoring {} events without identified particles",
@@ -196,6 +204,13 @@ where
 
         let events = self.resampler.resample(events).map_err(ResamplingErr)?;
 
+        // Any event that is discarded in the following has vanishing weights
+        for event in &events {
+            let mut zero = event.weights.read().clone();
+            zero.iter_mut().for_each(|w| *w = n64(0.));
+            weights[event.id] = zero;
+        }
+
         let mut events =
             self.unweighter.unweight(events).map_err(UnweightErr)?;
         events.par_sort_unstable();
@@ -217,7 +232,6 @@ where
             -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
         );
 
-        let mut weights = vec![crate::event::Weights::default(); nevents];
         for event in events {
             weights[event.id] = event.weights.into_inner();
         }
-- 
2.43.0


From ec59eaaed8e196adf5780b540f668754c2b429bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 03/21] fix: close LHEF output also if the file has fewer
 events than weights

---
 src/lhef.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lhef.rs b/src/lhef.rs
index e7da39a..e27dbac 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -282,6 +282,7 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
-- 
2.43.0


From 8ff56916548cc3d3332703f7c3a0c3d20a25d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 04/21] fix: restore the number of remaining events when
 rewinding STRIPPER XML files

---
 src/stripper_xml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d557b4d..cb1c7a5 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -111,7 +111,8 @@ impl Rewind for FileReader {
     type Error = CreateError;
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
-        (_, self.source) = init_source(&self.source_path)?;
+        // also restores the number of remaining events
+        *self = Self::try_new(self.source_path.clone())?;
 
         Ok(())
     }
-- 
2.43.0


From 5e63a857a1b285e6270d19e24d77909f6f08ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 05/21] fix: accept STRIPPER XML files with more events than
 announced

---
 src/stripper_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index cb1c7a5..d3e6517 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -92,7 +92,7 @@ impl FileReader {
 
         trace!("Read STRIPPER XML record:\n{record}");
 
-        self.rem_subevents -= 1;
+        self.rem_subevents = self.rem_subevents.saturating_sub(1);
         Some(Ok(record))
     }
 }
-- 
2.43.0


From ee2eaaef4d2d4aa37ba1bb85a4458f596a49cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 06/21] fix: report missing normalization of STRIPPER XML files

---
 src/stripper_xml.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d3e6517..dc81153 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -298,7 +298,7 @@ where
     use CreateError::*;
 
     let mut event_files = Vec::new();
-    let mut rescale: HashMap<_, (f64, u64)> = HashMap::new();
+    let mut rescale: HashMap<_, (Option<f64>, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
         let file = File::open(path).map_err(OpenInput)?;
@@ -311,11 +311,11 @@ where
                 match tag {
                     XMLTag::Normalization { name, scale } => {
                         let entry = rescale.entry(name).or_default();
-                        entry.0 = scale;
+                        entry.0 = Some(scale);
                         // don't add to vec of event files
                     }
                     XMLTag::Eventrecord { name, nevents, .. } => {
-                        let entry = rescale.entry(name).or_insert((-1., 0));
+                        let entry = rescale.entry(name).or_default();
                         entry.1 += nevents;
                         event_files.push((path.to_owned(), out))
                     }
@@ -330,7 +330,9 @@ where
     }
     let rescale = rescale
         .into_iter()
-        .map(|(name, (scale, nevents))| (name, scale / (nevents as f64)))
+        .filter_map(|(name, (scale, nevents))| {
+            Some((name, scale? / (nevents as f64)))
+        })
         .collect();
     Ok((event_files, rescale))
 }
-- 
2.43.0


From 2e631c2b8ff2960f28f88371b071d9688f4c2f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 07/21] fix: keep the complete header of HepMC and STRIPPER XML
 files without events

At the end of the file there is no start of an event to take off again.
Short STRIPPER XML files made the length wrap around.
---
 src/hepmc2.rs       | 2 +-
 src/stripper_xml.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 30bec11..9836203 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -106,7 +106,7 @@ fn init_source(
     let mut header = Vec::new();
     while !header.ends_with(b"\nE") {
         if buf.read_until(b'E', &mut header).map_err(Read)? == 0 {
-            break;
+            return Ok((header, buf)); // no events
         }
     }
     header.pop();
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index dc81153..86b4ad3 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -530,7 +530,7 @@ fn init_source(
     let mut header = Vec::new();
     while !header.ends_with(b"<se") {
         if buf.read_until(b'e', &mut header).map_err(Read)? == 0 {
-            break;
+            return Ok((header, buf)); // no events
         }
     }
     header.truncate(header.len() - b"<se".len());
-- 
2.43.0


From 146374c8a22b30a24b4c03b35c0a2a26c53e680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 08/21] fix: end of the weight update over several files

`CombinedFileIO::update_next_weights` panicked if no file had been opened
yet and at the end of the last file. Closing the update was never passed on
to the current file, so LHEF output was left without its footer.
---
 src/io.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 37154e5..84c9899 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -621,17 +621,29 @@ impl UpdateWeights for CombinedFileIO {
         &mut self,
         weights: &Weights,
     ) -> Result<bool, Self::Error> {
-        while self.current_file_idx < self.files.len() {
-            let current = self.current.as_mut().unwrap();
-            let res = current.update_next_weights(weights)?;
-            if res {
+        if self.current.is_none() && !self.files.is_empty() {
+            self.open(0)?;
+        }
+        while let Some(current) = self.current.as_mut() {
+            if current.update_next_weights(weights)? {
                 return Ok(true);
             }
+            if self.current_file_idx + 1 == self.files.len() {
+                // the last file is left to `finish_weight_update`
+                break;
+            }
             current.finish_weight_update()?;
             self.open(self.current_file_idx + 1)?;
         }
         Ok(false)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        match self.current.as_mut() {
+            Some(current) => current.finish_weight_update(),
+            None => Ok(()),
+        }
+    }
 }
 
 /// Reader from an event file
-- 
2.43.0


From d47731d40c27de357c2b88d694a3ca1515ade5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 09/21] fix: report failure to write the footer of classified
 events

---
 src/bin/classify-events.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d41d176..bff19da 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -22,7 +22,7 @@ use cres::{
     GIT_BRANCH, GIT_REV, VERSION,
 };
 use env_logger::Env;
-use log::{debug, error, info, trace};
+use log::{debug, info, trace};
 
 use crate::opt_classify::Opt;
 
@@ -145,9 +145,8 @@ impl Classifier {
             event_progress.inc(1);
         }
         for writer in writers {
-            if let Err(err) = write_footer(writer, format) {
-                error!("Failed to write event file footer: {err}");
-            }
+            write_footer(writer, format)
+                .with_context(|| "Failed to write event file footer")?;
         }
         Ok(())
     }
-- 
2.43.0


From 205b629ac7dbcc8c5d2578348536d414779a4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 10/21] fix: require enough events for all regions in
 cres-partition

---
 src/bin/partition.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 6e48c04..1612dd3 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -78,11 +78,15 @@ fn main() -> Result<()> {
         }
     }
 
-    if (opt.regions as usize) > events.len() {
+    // each bisection uses up one event, and there has to be at least
+    // one event on either side
+    let regions = opt.regions as usize;
+    let min_nevents =
+        std::cmp::max(regions, (3 * regions / 2).saturating_sub(1));
+    if events.len() < min_nevents {
         bail!(
-            "Number of negative-weight events ({}) must be at least as large as number of regions ({})",
+            "Number of negative-weight events ({}) must be at least {min_nevents} for {regions} regions",
             events.len(),
-            opt.regions,
         )
     }
     let nevents = events.len();
-- 
2.43.0


From e7325018b5b2fc5f57df719cb2008f7b93c39897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 11/21] fix: read compressed partition files

---
 src/bin/classify-events.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index bff19da..4b2bcf2 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -3,11 +3,12 @@ mod opt_common;
 
 use std::{
     fs::{create_dir_all, File},
-    io::{BufWriter, Write},
+    io::{BufReader, BufWriter, Write},
     path::{Path, PathBuf},
 };
 
 use anyhow::{anyhow, Context, Result};
+use audec::auto_decompress;
 use clap::Parser;
 use cres::{
     compression::{compress_writer, Compression},
@@ -49,6 +50,7 @@ fn main() -> Result<()> {
     let part_file = opt.partition;
     let part_info = File::open(&part_file)
         .with_context(|| format!("Failed to open {part_file:?}"))?;
+    let part_info = auto_decompress(BufReader::new(part_info));
     type PartInfo =
         (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
     let (clustering, partitions): PartInfo = serde_yaml::from_reader(part_info)
-- 
2.43.0


From 92a8d0a4e7ae724bddee127ac79eed2fba5d6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 12/21] fix: reject incomplete lepton and photon definitions in
 cres-partition

---
 src/bin/partition.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 1612dd3..acc080e 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -32,7 +32,18 @@ fn main() -> Result<()> {
     )
     .with_context(|| "Failed to read argument file")?;
     let opt = Opt::parse_from(args);
-    // TODO: validate!
+    let lepton_def = &opt.lepton_def;
+    if lepton_def.leptonalgorithm.is_some() != lepton_def.leptonpt.is_some()
+        || lepton_def.leptonpt.is_some() != lepton_def.leptonradius.is_some()
+    {
+        bail!("Either all or none of --leptonalgorithm, --leptonradius, --leptonpt have to be set")
+    }
+    let photon_def = &opt.photon_def;
+    if photon_def.photonefrac.is_some() != photon_def.photonradius.is_some()
+        || photon_def.photonradius.is_some() != photon_def.photonpt.is_some()
+    {
+        bail!("Either all or none of --photonefrac, --photonradius, --photonpt have to be set")
+    }
 
     let env = Env::default().filter_or("CRES_LOG", &opt.loglevel);
     env_logger::init_from_env(env);
-- 
2.43.0


From fa4fea3683886da5fe56a30a566478b8a2630c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 13/21] fix: write the end mark of lz4-compressed files

---
 src/compression.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index f99529b..4f214ec 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -36,7 +36,7 @@ pub fn compress_writer<'a, W: 'a + Write>(
                 .auto_flush(true)
                 .level(lvl.into())
                 .build(writer)?;
-            Ok(Box::new(encoder))
+            Ok(Box::new(Lz4Writer(Some(encoder))))
         }
         Some(Compression::Zstd(lvl)) => {
             let encoder = zstd::Encoder::new(writer, lvl.into())?;
@@ -45,3 +45,34 @@ pub fn compress_writer<'a, W: 'a + Write>(
         None => Ok(Box::new(writer)),
     }
 }
+
+/// An lz4 encoder that writes the end mark when it is dropped
+///
+/// The encoders for the other formats already behave like this.
+struct Lz4Writer<W: Write>(Option<lz4::Encoder<W>>);
+
+impl<W: Write> Lz4Writer<W> {
+    fn encoder(&mut self) -> &mut lz4::Encoder<W> {
+        // only `None` after dropping
+        self.0.as_mut().unwrap()
+    }
+}
+
+impl<W: Write> Write for Lz4Writer<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.encoder().write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.encoder().flush()
+    }
+}
+
+impl<W: Write> Drop for Lz4Writer<W> {
+    fn drop(&mut self) {
+        if let Some(encoder) = self.0.take() {
+            // as for the other formats, there is no way to report errors
+            let _ = encoder.finish();
+        }
+    }
+}
-- 
2.43.0


From 2db8a1167e10fc7231a18c94b77f1ad825b9fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 14/21] fix: report errors writing the end of event files

---
 src/hepmc2.rs       | 7 +++++++
 src/lhef.rs         | 5 ++++-
 src/stripper_xml.rs | 7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 9836203..468211c 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -233,9 +233,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -246,6 +248,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.flush().map_err(WriteError::IO);
+        self.into_io_error(res)
+    }
 }
 
 /// Parser for HepMC event records
diff --git a/src/lhef.rs b/src/lhef.rs
index e27dbac..c484a81 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -299,7 +299,10 @@ impl UpdateWeights for FileIO {
     }
 
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
-        let res = self.sink.write_all(b"\n</LesHouchesEvents>\n");
+        let res = self
+            .sink
+            .write_all(b"\n</LesHouchesEvents>\n")
+            .and_then(|_| self.sink.flush());
         self.into_io_error(res.map_err(WriteError::IO))?;
         Ok(())
     }
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 86b4ad3..2591481 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -658,9 +658,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -671,6 +673,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.flush().map_err(WriteError::IO);
+        self.into_io_error(res)
+    }
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-- 
2.43.0


From 3ebf31e22b10b801cf588f2f2e8a13e2b3937970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 15/21] fix: report errors writing the end of partition and
 region files

---
 src/bin/classify-events.rs | 3 ++-
 src/bin/partition.rs       | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 4b2bcf2..b4253b6 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -213,7 +213,8 @@ fn write_footer(
     format: FileFormat,
 ) -> std::io::Result<()> {
     writer.write_all(get_footer(format).as_bytes())?;
-    writer.write_all(b"\n")
+    writer.write_all(b"\n")?;
+    writer.flush()
 }
 
 fn trim_footer(event: &str, format: FileFormat) -> &str {
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index acc080e..03e7241 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -1,7 +1,7 @@
 mod opt_common;
 mod opt_partition;
 
-use std::fs::File;
+use std::{fs::File, io::Write};
 
 use crate::opt_partition::Opt;
 
@@ -132,9 +132,11 @@ fn main() -> Result<()> {
     info!("Writing to {outfile:?}");
     let out = File::create(&outfile)
         .with_context(|| format!("Failed to open {outfile:?}"))?;
-    let out = compress_writer(out, opt.compression)
+    let mut out = compress_writer(out, opt.compression)
         .with_context(|| format!("Failed to compress output to {outfile:?}"))?;
-    serde_yaml::to_writer(out, &(clustering, partition))?;
+    serde_yaml::to_writer(&mut out, &(clustering, partition))?;
+    out.flush()
+        .with_context(|| format!("Failed to write to {outfile:?}"))?;
     info!("Done");
     Ok(())
 }
-- 
2.43.0


From eb5bb2c7865ac23c553b34e5377d2b26aec66f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 16/21] fix: call user-defined distances with the C calling
 convention

---
 src/c_api/distance.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5f24104..5eddce4 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -18,7 +18,8 @@ pub struct DistanceFn {
     /// This has to be a *thread-safe* function that _may never return NaN_.
     /// The first argument is a pointer to the `data` member of this struct.
     /// The remaining arguments are the events for which we compute the distance.
-    pub fun: unsafe fn(*mut c_void, &EventView, &EventView) -> c_double,
+    pub fun:
+        unsafe extern "C" fn(*mut c_void, &EventView, &EventView) -> c_double,
     /// Arbitrary data used by the distance function
     pub data: *mut c_void,
 }
-- 
2.43.0


From 21edc50e7593f1b5607591a4fbce64c9662f3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 17/21] fix: pass the event weights to user-defined distances

---
 src/c_api/distance.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5eddce4..69c7cb6 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -43,20 +43,22 @@ impl Distance for DistanceFn {
         let type_sets1 = extract_typesets(ev1);
         let type_set_views1: Vec<_> =
             type_sets1.iter().map(TypeSet::view).collect();
+        let weights1 = extract_weights(ev1);
         let event_view1 = EventView {
             id: ev1.id(),
-            weights: ev1.weights.data_ptr() as *const f64,
-            n_weights: ev1.n_weights(),
+            weights: weights1.as_ptr(),
+            n_weights: weights1.len(),
             type_sets: type_set_views1.as_ptr(),
             n_type_sets: type_set_views1.len(),
         };
         let type_sets2 = extract_typesets(ev2);
         let type_set_views2: Vec<_> =
             type_sets2.iter().map(TypeSet::view).collect();
+        let weights2 = extract_weights(ev2);
         let event_view2 = EventView {
             id: ev2.id(),
-            weights: ev2.weights.data_ptr() as *const f64,
-            n_weights: ev2.n_weights(),
+            weights: weights2.as_ptr(),
+            n_weights: weights2.len(),
             type_sets: type_set_views2.as_ptr(),
             n_type_sets: type_set_views2.len(),
         };
@@ -65,6 +67,10 @@ impl Distance for DistanceFn {
     }
 }
 
+fn extract_weights(ev: &Event) -> Vec<c_double> {
+    ev.weights.read().iter().map(|&w| w.into()).collect()
+}
+
 fn extract_typesets(ev: &Event) -> Vec<TypeSet> {
     ev.outgoing()
         .iter()
-- 
2.43.0


From 3b49ea39f25bbecc721bacb106c01f144c7a4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 18/21] fix: never overwrite an input file or another output
 file

If the output directory contained an input file, or if two input files
had the same name, the output of one file replaced another file.
---
 src/io.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 84c9899..97d24ee 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::File,
     io::{BufRead, BufReader},
     path::{Path, PathBuf},
@@ -161,6 +161,12 @@ impl IOBuilder {
         } = self;
         let _scaling = scaling;
 
+        let mut protected = ProtectedFiles::default();
+        protected.protect(&infile);
+        if !protected.protect(&outfile) {
+            return Err(CreateError::Overwrite(outfile));
+        }
+
         let format = detect_event_file_format(&infile)?;
         debug!("Read {infile:?} as {format:?} file");
 
@@ -382,6 +388,10 @@ pub enum CreateError {
     #[error("UTF8 error")]
     Utf8(#[from] Utf8Error),
 
+    /// Output would overwrite an input file or another output file
+    #[error("Output to {0} would overwrite another input or output file")]
+    Overwrite(PathBuf),
+
     #[cfg(not(feature = "ntuple"))]
     /// Attempt to use unsupported format
     #[error("Support for ROOT ntuple format is not enabled. Reinstall cres with `cargo install cres --features=ntuple`")]
@@ -463,6 +473,38 @@ pub enum WriteError {
     IO(#[from] std::io::Error),
 }
 
+/// Files that must not be (over-)written
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct ProtectedFiles(HashSet<PathBuf>);
+
+impl ProtectedFiles {
+    /// Protect a file
+    ///
+    /// Returns `false` if the file was already protected
+    pub fn protect(&mut self, file: &Path) -> bool {
+        if file.metadata().is_ok_and(|m| !m.is_file()) {
+            // device, pipe, ...: no content that could be overwritten
+            return true;
+        }
+        self.0.insert(resolve(file))
+    }
+}
+
+/// Unique path for a file that may or may not exist already
+fn resolve(file: &Path) -> PathBuf {
+    if let Ok(path) = file.canonicalize() {
+        return path;
+    }
+    let dir = match file.parent() {
+        Some(dir) if dir != Path::new("") => dir,
+        _ => Path::new("."),
+    };
+    match (dir.canonicalize(), file.file_name()) {
+        (Ok(dir), Some(name)) => dir.join(name),
+        _ => file.to_path_buf(),
+    }
+}
+
 #[derive(Clone, Debug, Default, Eq, PartialEq, Ord, PartialOrd, Hash)]
 struct IOFiles {
     infile: PathBuf,
@@ -484,6 +526,20 @@ impl CombinedFileIO {
         files: Vec<IOFiles>,
         builder: IOBuilder,
     ) -> Result<Self, FileIOError> {
+        let mut protected = ProtectedFiles::default();
+        for file in &files {
+            protected.protect(&file.infile);
+        }
+        for IOFiles { infile, outfile } in &files {
+            if !protected.protect(outfile) {
+                return Err(FileIOError::new(
+                    infile.clone(),
+                    outfile.clone(),
+                    CreateError::Overwrite(outfile.clone()).into(),
+                ));
+            }
+        }
+
         let mut res = Self {
             files,
             current: None,
-- 
2.43.0


From 76273a3a957acf6bfadc1a6d1601fb6ff1c1bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 19/21] fix: cres-partition, cres-classify-events: do not
 overwrite input files

Also do not overwrite the output for a previous input file with the
same name.
---
 src/bin/classify-events.rs | 54 +++++++++++++++++++++++++++-----------
 src/bin/partition.rs       | 12 +++++++--
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index b4253b6..f7caa35 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -7,7 +7,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use anyhow::{anyhow, Context, Result};
+use anyhow::{anyhow, bail, Context, Result};
 use audec::auto_decompress;
 use clap::Parser;
 use cres::{
@@ -15,7 +15,9 @@ use cres::{
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
-    io::{detect_event_file_format, EventFileReader, FileReader},
+    io::{
+        detect_event_file_format, EventFileReader, FileReader, ProtectedFiles,
+    },
     partition::VPTreePartition,
     prelude::{Converter, DefaultClustering},
     progress_bar::ProgressBar,
@@ -62,6 +64,12 @@ fn main() -> Result<()> {
     create_dir_all(&opt.outdir)
         .with_context(|| format!("Failed to create {:?}", opt.outdir))?;
 
+    let mut protected = ProtectedFiles::default();
+    protected.protect(&part_file);
+    for file in &opt.infiles {
+        protected.protect(file);
+    }
+
     let classifier = Classifier {
         partitions,
         outdir: opt.outdir,
@@ -77,17 +85,23 @@ fn main() -> Result<()> {
             format!("Failed to detect event format for {file:?}")
         })?;
         match format {
-            FileFormat::HepMC2 => {
-                classifier.classify_byte_records(file, format)?
-            }
+            FileFormat::HepMC2 => classifier.classify_byte_records(
+                file,
+                format,
+                &mut protected,
+            )?,
             #[cfg(feature = "lhef")]
-            FileFormat::Lhef => {
-                classifier.classify_byte_records(file, format)?
-            }
+            FileFormat::Lhef => classifier.classify_byte_records(
+                file,
+                format,
+                &mut protected,
+            )?,
             #[cfg(feature = "stripper-xml")]
-            FileFormat::StripperXml => {
-                classifier.classify_byte_records(file, format)?
-            }
+            FileFormat::StripperXml => classifier.classify_byte_records(
+                file,
+                format,
+                &mut protected,
+            )?,
             #[cfg(feature = "ntuple")]
             FileFormat::BlackHatNtuple => {
                 classifier.classify_ntuple_records(file)?
@@ -111,6 +125,7 @@ impl Classifier {
         &self,
         file: PathBuf,
         format: FileFormat,
+        protected: &mut ProtectedFiles,
     ) -> Result<()> {
         let Classifier {
             partitions,
@@ -121,11 +136,14 @@ impl Classifier {
         } = self;
         let reader = FileReader::try_new(file.clone())
             .with_context(|| "Failed to read from {file:?}")?;
-        let mut writers =
-            make_byte_writers(partitions.len(), outdir, &file, *compression)
-                .with_context(|| {
-                    format!("Failed to create writers for {file:?}")
-                })?;
+        let mut writers = make_byte_writers(
+            partitions.len(),
+            outdir,
+            &file,
+            *compression,
+            protected,
+        )
+        .with_context(|| format!("Failed to create writers for {file:?}"))?;
         for writer in &mut writers {
             writer.write_all(reader.header())?;
         }
@@ -243,6 +261,7 @@ fn make_byte_writers(
     outdir: &Path,
     file: &Path,
     compression: Option<Compression>,
+    protected: &mut ProtectedFiles,
 ) -> Result<Vec<Box<dyn Write>>> {
     let filename = file
         .file_name()
@@ -263,6 +282,9 @@ fn make_byte_writers(
     for i in 0..n {
         let outname = make_outname(i);
         debug!("Events in region {i} will be written to {outname:?}");
+        if !protected.protect(&outname) {
+            bail!("{outname:?} would overwrite another input or output file");
+        }
         let outfile = File::create(&outname)
             .with_context(|| format!("Failed to create {outname:?}"))?;
         let out = BufWriter::new(outfile);
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 03e7241..d16a2b3 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -12,7 +12,7 @@ use cres::{
     distance::{DistWrapper, EuclWithScaledPt},
     event::Event,
     io::Converter,
-    io::FileReader,
+    io::{FileReader, ProtectedFiles},
     partition::{VPBisection, VPTreePartition},
     prelude::DefaultClustering,
     traits::{Clustering, TryConvert},
@@ -73,6 +73,15 @@ fn main() -> Result<()> {
         clustering = clustering.with_photon_def(opt.photon_def.into())
     }
 
+    let outfile = opt.outfile;
+    let mut protected = ProtectedFiles::default();
+    for file in &opt.infiles {
+        protected.protect(file);
+    }
+    if !protected.protect(&outfile) {
+        bail!("Output to {outfile:?} would overwrite an input file");
+    }
+
     // TODO: in principle we only need the kinematic part
     let mut events = Vec::new();
     for file in opt.infiles {
@@ -128,7 +137,6 @@ fn main() -> Result<()> {
     let partition = unsafe { VPTreePartition::from_vp(tree, distance) };
     trace!("Partition: {partition:#?}");
 
-    let outfile = opt.outfile;
     info!("Writing to {outfile:?}");
     let out = File::create(&outfile)
         .with_context(|| format!("Failed to open {outfile:?}"))?;
-- 
2.43.0


From 2b5e4922935c9d7dfaf1ddad31145e0b20ce198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 20/21] fix: keep the largest cells when combining cell
 collectors

---
 src/cell_collector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 66292d8..304a3fa 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -207,9 +207,8 @@ impl CellCollector {
 }
 
 fn truncate<K: Ord, V>(map: &mut BTreeMap<K, V>, n: usize) {
-    let mut count = 0;
-    map.retain(|_, _| {
-        count += 1;
-        count <= n
-    });
+    // drop the smallest entries
+    while map.len() > n {
+        map.pop_first();
+    }
 }
-- 
2.43.0


From e900e674b5ee1c4bc5fb914ffcb08f534c5d8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:09 +0000
Subject: [PATCH 21/21] fix: keep the first cells of both collectors when
 combining

---
 src/cell_collector.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 304a3fa..a82602a 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -190,6 +190,13 @@ impl CellCollector {
                 .map(|((w, id), ev)| ((w, id + self.count), ev)),
         );
         truncate(&mut self.largest_by_weight, NCELLS);
+        self.first.extend(
+            other
+                .first
+                .into_iter()
+                .map(|(id, ev)| (id + self.count, ev)),
+        );
+        self.first.truncate(NCELLS);
         self.random.extend(
             other
                 .random
-- 
2.43.0

