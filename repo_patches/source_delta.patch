From fecdd6d1640ef176234cb3d991a8b1ee52200d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:45 +0000
Subject: [PATCH 01/30] fix: compute spins before initializing the effects that
 use them

calculate_additional_effects() initialized tides, flattening, etc. with
the spin of a previous evaluation and refreshed the spin afterwards.
Writing a historic snapshot also refreshes the spin, so the trajectory
depended on the historic snapshot period.
---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 16c9b0c..6ee44ba 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -426,8 +426,8 @@ impl Universe {
     }
 
     pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
-        self.initialize(dangular_momentum_dt, accelerations);
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
+        self.initialize(dangular_momentum_dt, accelerations);
 
         let (mut particles, _) = self.particles.split_at_mut(self.n_particles);
         if dangular_momentum_dt && self.consider_effects.wind {
-- 
2.43.0


From e7b41f79ebc87f25c59f46c99b6b831691087bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:02 +0000
Subject: [PATCH 02/30] fix: do not let the evolution table index run ahead of
 the current time

The interpolation returns an index relative to the slice it was given,
but it was added to an index that already includes the start of that
slice, so the evolvers skipped ahead and froze at later table entries.
---
 src/effects/evolution.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index fa389a1..d840037 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -457,10 +457,10 @@ impl Evolver {
 
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
         let (new_radius, left_index) = match self.evolution {
-            EvolutionType::NonEvolving => { (current_radius, 0) },
+            EvolutionType::NonEvolving => { (current_radius, self.left_index - self.idx()) },
             _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
         };
-        self.left_index += left_index;
+        self.left_index = self.idx() + left_index; // the interpolation was given a slice starting at idx()
         return new_radius;
     }
 
@@ -469,18 +469,18 @@ impl Evolver {
             EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
             EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
             EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            _ => { (current_radius_of_gyration_2, 0) }
+            _ => { (current_radius_of_gyration_2, self.left_index - self.idx()) }
         };
-        self.left_index += left_index;
+        self.left_index = self.idx() + left_index; // the interpolation was given a slice starting at idx()
         return new_radius_of_gyration_2;
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
         let (new_love_number, left_index) = match self.evolution {
             EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
-            _ => { (current_love_number, 0) }
+            _ => { (current_love_number, self.left_index - self.idx()) }
         };
-        self.left_index += left_index;
+        self.left_index = self.idx() + left_index; // the interpolation was given a slice starting at idx()
         return new_love_number;
     }
 
@@ -506,9 +506,9 @@ impl Evolver {
             EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true) => {
                 linear_interpolation(current_time, &self.time[self.idx()..], &self.inverse_tidal_q_factor[self.idx()..])
             },
-            _ => (current_inverse_tidal_q_factor, 0),
+            _ => (current_inverse_tidal_q_factor, self.left_index - self.idx()),
         };
-        self.left_index += left_index;
+        self.left_index = self.idx() + left_index; // the interpolation was given a slice starting at idx()
         return new_inverse_tidal_q_factor;
     }
 }
-- 
2.43.0


From f71b2a84a7b4b913c1aa63a2f7f6e9840c4042ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:18 +0000
Subject: [PATCH 03/30] fix: store the evolved love number in the particle

The evolved value was assigned to a copy of the tidal parameters and
lost, so the love number of LeconteChabrier2013 bodies never evolved.
---
 src/effects/evolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index d840037..a124f3b 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -531,9 +531,9 @@ pub fn calculate_particles_non_spin_dependent_evolving_quantities(current_time:
         ////////////////////////////////////////////////////////////////////
         // Love number
         ////////////////////////////////////////////////////////////////////
-        match &particle.tides.effect {
+        match &mut particle.tides.effect {
             TidesEffect::CentralBody(tidal_model) | TidesEffect::OrbitingBody(tidal_model) => {
-                if let TidalModel::ConstantTimeLag(mut params) = tidal_model {
+                if let TidalModel::ConstantTimeLag(params) = tidal_model {
                     params.love_number = evolver.love_number(current_time, params.love_number);
                 }
             },
-- 
2.43.0


From 255e77d721c7614a54888637fec7d0522e9394ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:45 +0000
Subject: [PATCH 04/30] fix: parse resume --time-limit as the floating point
 number it is read as

The argument was parsed as u64 and read as f64, so using it panicked.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a38792..a99ebb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,7 @@ fn main() {
                                     .arg(Arg::new("change_time_limit")
                                         .long("time-limit")
                                         .value_name("days")
-                                        .value_parser(value_parser!(u64))
+                                        .value_parser(value_parser!(f64))
                                         .help("Set new simulation time limit in days."))
                                     )
                             .subcommand_required(true)
-- 
2.43.0


From c274831b32215a3a318a936fa4d0bd3f724ed5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:59 +0000
Subject: [PATCH 05/30] fix: keep saving periodic recovery snapshots with
 --limit

With an execution time limit no recovery snapshot was saved until the
limit was reached, so a crash lost everything since the start.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a99ebb7..2ca5f12 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -166,7 +166,8 @@ fn main() {
                         println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
                         break;
                     }
-                } else if recovery_snapshot_time_trigger {
+                }
+                if recovery_snapshot_time_trigger {
                     // Save a universe snapshot so that we can resume in case of failure
                     boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
                 }
-- 
2.43.0


From c866772b4b782938cb516e4a2052c07f1b082e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:15 +0000
Subject: [PATCH 06/30] fix: write the whole JSON snapshot

write() may write only part of the buffer.
---
 src/integrator/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 38a0662..9091806 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -45,7 +45,7 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
 
     if snapshot_path.extension().unwrap() == "json" {
         let json_encoded = serde_json::to_string_pretty(&universe_integrator).unwrap();
-        writer.write(json_encoded.as_bytes()).unwrap();
+        writer.write_all(json_encoded.as_bytes()).unwrap();
     } else {
         // Binary
         bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
-- 
2.43.0


From 41032890b8bdafb4dbab729586ee3bed1cd0de2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:30 +0000
Subject: [PATCH 07/30] fix: report errors when flushing the recovery snapshot

Dropping the BufWriter ignores them and left a truncated snapshot behind
a run that reported success.
---
 src/integrator/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 9091806..cebf75d 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -50,7 +50,7 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
         // Binary
         bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
     }
-
+    writer.flush().unwrap(); // errors are ignored when the writer is dropped
 }
 
 
-- 
2.43.0


From a513f680c0eb0fd91086c5dbcbd6fb55be0ddb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:42 +0000
Subject: [PATCH 08/30] fix: report errors when flushing the history at the end
 of a run

Dropping the BufWriter ignores them, so the last records could be lost
by a run that reported success.
---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 2ca5f12..b93c6ed 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ extern crate time;
 extern crate clap;
 use clap::{Arg, ArgAction, Command};
 use clap::value_parser;
+use std::io::Write;
 use std::path::Path;
 use std::time::{Duration, Instant};
 use time::{OffsetDateTime, format_description};
@@ -176,6 +177,8 @@ fn main() {
         };
     }
 
+    universe_history_writer.flush().unwrap(); // errors are ignored when the writer is dropped
+
     let duration = timer.elapsed(); // duration
     if !resume {
         println!("[INFO {} UTC] Execution time: {} seconds", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), duration.as_secs_f64());
-- 
2.43.0


From 0e7bf4a5e6ac00968f02e3511e8547019d55c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:58 +0000
Subject: [PATCH 09/30] fix: keep the extension of the snapshot in the name of
 its backup

The backup of a JSON snapshot was named .bin, and the format to restore
is chosen from the extension, so it could not be resumed.
---
 src/integrator/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index cebf75d..7fd2e5d 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -36,7 +36,7 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
         //// Backup (keep only 1 per hour thanks to filename collision)
         //let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[hour]h)).unwrap());
         // Backup (keep only 1 every 12 hours thanks to filename collision)
-        let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap());
+        let new_extension = format!("{0}.{1}", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap(), snapshot_path.extension().unwrap().to_string_lossy());
         fs::rename(snapshot_path, snapshot_path.with_extension(new_extension)).unwrap();
     }
 
-- 
2.43.0


From bf6331c0ababb1bcb5dfffca987c2b493432c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:39 +0000
Subject: [PATCH 10/30] fix: do not restore the binary snapshot of an
 integrator as another one

Binary snapshots are decoded as WHFast first and trailing bytes were
ignored, so some IAS15 snapshots were restored as a broken WHFast.
---
 src/integrator/output.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 7fd2e5d..ab72395 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -2,13 +2,14 @@ extern crate time;
 use std::fs::File;
 use std::fs::{OpenOptions};
 use std::io::{Write, BufWriter};
-use std::io::{Read, BufReader};
+use std::io::Read;
 use super::super::Integrator;
 use super::super::particles::Universe;
 use super::super::particles::Reference;
 use super::super::{Axes, TidesEffect, TidalModel};
 use super::super::tools::calculate_keplerian_orbital_elements;
 use bincode;
+use bincode::Options;
 use time::{OffsetDateTime, format_description};
 use serde::{Serialize};
 use serde_json;
@@ -242,29 +243,29 @@ fn deserialize_json_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>
 
 fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>, String> {
     // Open the path in read-only mode, returns `io::Result<File>`
-    let snapshot_file = File::open(&snapshot_path).unwrap();
-    let mut reader = BufReader::new(&snapshot_file);
-    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = bincode::deserialize_from(&mut reader);
+    let mut snapshot_file = File::open(&snapshot_path).unwrap();
+    let mut bin_encoded = Vec::new();
+    if let Err(why) = snapshot_file.read_to_end(&mut bin_encoded) {
+        return Err(format!("Couldn't read bin snapshot file: {}", why))
+    }
+    // Same encoding as bincode::serialize_into, but reject trailing bytes: the snapshot of an
+    // integrator may start with bytes that can be decoded as another integrator
+    let options = bincode::DefaultOptions::new().with_fixint_encoding();
+    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = options.deserialize(&bin_encoded);
     match wrapped_universe_integrator {
         Ok(universe_integrator) => {
             println!("[INFO {} UTC] WHFAST Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
             Ok(Box::new(universe_integrator))
         },
         Err(_) => {
-            // Re-open file because the previous File/BufReader was already consumed
-            let snapshot_file = File::open(&snapshot_path).unwrap();
-            let mut reader = BufReader::new(&snapshot_file);
-            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = bincode::deserialize_from(&mut reader);
+            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = options.deserialize(&bin_encoded);
             match wrapped_universe_integrator {
                 Ok(universe_integrator) => {
                     println!("[INFO {} UTC] IAS15 Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
                     Ok(Box::new(universe_integrator))
                 },
                 Err(_) => {
-                    // Re-open file because the previous File/BufReader was already consumed
-                    let snapshot_file = File::open(&snapshot_path).unwrap();
-                    let mut reader = BufReader::new(&snapshot_file);
-                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = bincode::deserialize_from(&mut reader);
+                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = options.deserialize(&bin_encoded);
                     match wrapped_universe_integrator {
                         Ok(universe_integrator) => {
                             println!("[INFO {} UTC] LeapFrog Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
-- 
2.43.0


From 219e22de46320b62a95201ed9a751b365a34d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:56 +0000
Subject: [PATCH 11/30] fix: do not take a file that cannot be examined for a
 missing one

exists() is false when stat fails, so 'start' truncated the history it
must not overwrite and the previous snapshot was not backed up.
---
 src/integrator/output.rs | 2 +-
 src/main.rs              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index ab72395..3aae0aa 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -33,7 +33,7 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
     //
     // The buffer will be written out when the writer is dropped.
 
-    if snapshot_path.exists() {
+    if snapshot_path.try_exists().unwrap() {
         //// Backup (keep only 1 per hour thanks to filename collision)
         //let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[hour]h)).unwrap());
         // Backup (keep only 1 every 12 hours thanks to filename collision)
diff --git a/src/main.rs b/src/main.rs
index b93c6ed..ac1d5d1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,9 +142,9 @@ fn main() {
                                 * (boxed_universe_integrator.get_n_particles() as u64);
     let universe_history_path = Path::new(&universe_history_filename);
 
-    if !resume && universe_integrator_snapshot_path.exists() {
+    if !resume && universe_integrator_snapshot_path.try_exists().unwrap() {
         panic!("[PANIC {} UTC] File '{}' already exists.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_integrator_snapshot_filename);
-    } else if !resume && universe_history_path.exists() {
+    } else if !resume && universe_history_path.try_exists().unwrap() {
         panic!("[PANIC {} UTC] File '{}' already exists.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_history_filename);
     }
 
-- 
2.43.0


From b814bdc1cd92a0f983c8d344b1bbcda39df5f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:27 +0000
Subject: [PATCH 12/30] fix: make the history and the recovery snapshot durable

A power loss after a recovery snapshot could leave a snapshot that
refers to history records that never reached the disk, or an empty one.
---
 src/integrator/ias15.rs    | 1 +
 src/integrator/leapfrog.rs | 1 +
 src/integrator/output.rs   | 1 +
 src/integrator/whfast.rs   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 3f960cc..90ac665 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -465,6 +465,7 @@ impl Integrator for Ias15 {
     fn write_recovery_snapshot(&mut self, snapshot_path: &Path, universe_history_writer: &mut BufWriter<File>) {
         self.last_recovery_snapshot_time = self.current_time;
         universe_history_writer.flush().unwrap();
+        universe_history_writer.get_ref().sync_data().unwrap(); // the snapshot must not be more durable than the history it refers to
         // Compute hash for this universe at this moment of time
         let mut s = DefaultHasher::new();
         self.hash = 0;
diff --git a/src/integrator/leapfrog.rs b/src/integrator/leapfrog.rs
index ed6d8ca..ff3abc9 100644
--- a/src/integrator/leapfrog.rs
+++ b/src/integrator/leapfrog.rs
@@ -217,6 +217,7 @@ impl Integrator for LeapFrog {
     fn write_recovery_snapshot(&mut self, snapshot_path: &Path, universe_history_writer: &mut BufWriter<File>) {
         self.last_recovery_snapshot_time = self.current_time;
         universe_history_writer.flush().unwrap();
+        universe_history_writer.get_ref().sync_data().unwrap(); // the snapshot must not be more durable than the history it refers to
         // Compute hash for this universe at this moment of time
         let mut s = DefaultHasher::new();
         self.hash = 0;
diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 3aae0aa..a63c00c 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -52,6 +52,7 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
         bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
     }
     writer.flush().unwrap(); // errors are ignored when the writer is dropped
+    writer.get_ref().sync_all().unwrap();
 }
 
 
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f199906..f81431b 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -307,6 +307,7 @@ impl Integrator for WHFast {
     fn write_recovery_snapshot(&mut self, snapshot_path: &Path, universe_history_writer: &mut BufWriter<File>) {
         self.last_recovery_snapshot_time = self.current_time;
         universe_history_writer.flush().unwrap();
+        universe_history_writer.get_ref().sync_data().unwrap(); // the snapshot must not be more durable than the history it refers to
         // Compute hash for this universe at this moment of time
         self.hash = 0;
         let mut s = DefaultHasher::new();
-- 
2.43.0


From 6ff56ef77b816fe6a2c4418c205fbfda19a3206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:04 +0000
Subject: [PATCH 13/30] fix: do not divide by zero in the energy loss of the
 first snapshot

No tidal force nor distance is known yet when the first historic
snapshot is written, so the energy loss was NaN, which JSON cannot
represent: the first JSON recovery snapshots could not be restored.
---
 src/effects/tides/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 944ba59..97e78a9 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -263,6 +263,9 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
 pub fn calculate_denergy_dt(particles: &mut [Particle], more_particles: &mut [Particle]) {
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
         if let TidesEffect::OrbitingBody(_) = particle.tides.effect {
+            if particle.tides.parameters.internal.distance == 0. {
+                continue; // No tidal force has been computed yet (first historic snapshot)
+            }
             // - Equation 32 from Bolmont et al. 2015
             //// Instantaneous energy loss dE/dt due to tides
             //// in Msun.AU^2.day^(-3)
-- 
2.43.0


From bf16ab12a1a19b0bf6bb58a5f00d011e31d1e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:28 +0000
Subject: [PATCH 14/30] fix: restore JSON snapshots with an infinite migration
 timescale

The timescale of a planet outside of the disk is infinite, which JSON
represents as null, and such snapshots could not be restored.
---
 src/effects/disk.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/effects/disk.rs b/src/effects/disk.rs
index 117ab39..832e341 100644
--- a/src/effects/disk.rs
+++ b/src/effects/disk.rs
@@ -1,4 +1,4 @@
-use serde::{Serialize, Deserialize};
+use serde::{Serialize, Deserialize, Deserializer};
 use super::super::constants::{BOLTZMANN_CONSTANT, MASS_HYDROGEN_ATOM};
 use super::super::{Particle};
 use super::super::{Axes};
@@ -19,9 +19,19 @@ pub struct DiskParticleInternalParameters {
     pub distance: f64,
     pub norm_velocity_vector: f64,
     pub norm_velocity_vector_2: f64,
+    #[serde(deserialize_with = "deserialize_timescale")]
     pub migration_timescale: f64,
 }
 
+// The timescale is infinite where there is no gas, JSON represents it as null
+fn deserialize_timescale<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
+    if deserializer.is_human_readable() {
+        Ok(Option::<f64>::deserialize(deserializer)?.unwrap_or(f64::INFINITY))
+    } else {
+        f64::deserialize(deserializer)
+    }
+}
+
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct DiskParticleOutputParameters {
     pub acceleration: Axes,
-- 
2.43.0


From 138620159bd65cb0e71ef58998981979b76a3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:43 +0000
Subject: [PATCH 15/30] fix: create the history file exclusively when a
 simulation starts

---
 src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ac1d5d1..a941418 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ extern crate time;
 extern crate clap;
 use clap::{Arg, ArgAction, Command};
 use clap::value_parser;
+use std::fs::OpenOptions;
 use std::io::Write;
 use std::path::Path;
 use std::time::{Duration, Instant};
@@ -144,8 +145,14 @@ fn main() {
 
     if !resume && universe_integrator_snapshot_path.try_exists().unwrap() {
         panic!("[PANIC {} UTC] File '{}' already exists.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_integrator_snapshot_filename);
-    } else if !resume && universe_history_path.try_exists().unwrap() {
-        panic!("[PANIC {} UTC] File '{}' already exists.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_history_filename);
+    } else if !resume {
+        // Creating it fails if it exists, even if another simulation has created it a moment ago
+        if let Err(e) = OpenOptions::new().write(true).create_new(true).open(universe_history_path) {
+            if e.kind() == std::io::ErrorKind::AlreadyExists {
+                panic!("[PANIC {} UTC] File '{}' already exists.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), universe_history_filename);
+            }
+            panic!("[PANIC {} UTC] File error: {}", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), e);
+        }
     }
 
     let mut universe_history_writer = posidonius::output::get_universe_history_writer(universe_history_path, expected_n_bytes);
-- 
2.43.0


From c0f22118c4ce57d78434f56bbbec57baf3f854ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:27 +0000
Subject: [PATCH 16/30] fix: detect ejections when the host is not the first
 body

---
 src/particles/universe.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 6ee44ba..a30cd8c 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -231,9 +231,11 @@ impl Universe {
                         println!("\n");
                         panic!("[PANIC {} UTC] Collision between particle {} and {}!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), i, j);
                     }
-                    if MAX_DISTANCE_2 > 0. && i == self.hosts.index.most_massive && distance_2 > MAX_DISTANCE_2 {
+                    // The host is not necessarily the first of the pair
+                    if MAX_DISTANCE_2 > 0. && (i == self.hosts.index.most_massive || j == self.hosts.index.most_massive) && distance_2 > MAX_DISTANCE_2 {
+                        let ejected = if i == self.hosts.index.most_massive { j } else { i };
                         println!("\n");
-                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), j);
+                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), ejected);
                     }
                 }
                 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f11655938582308344f7c5d57870d5b4c03ed302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:58 +0000
Subject: [PATCH 17/30] fix: go back in the evolution table as far as the time
 step did

---
 src/effects/evolution.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index a124f3b..c262993 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -455,7 +455,15 @@ impl Evolver {
         }
     }
 
+    // A rejected time step may have followed the table further than what idx() goes back
+    fn rewind(&mut self, current_time: f64) {
+        if self.idx() > 0 && self.time[self.idx()] > current_time {
+            self.left_index = 0;
+        }
+    }
+
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
+        self.rewind(current_time);
         let (new_radius, left_index) = match self.evolution {
             EvolutionType::NonEvolving => { (current_radius, self.left_index - self.idx()) },
             _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
@@ -465,6 +473,7 @@ impl Evolver {
     }
 
     pub fn radius_of_gyration_2(&mut self, current_time: f64, current_radius_of_gyration_2: f64) -> f64 {
+        self.rewind(current_time);
         let (new_radius_of_gyration_2, left_index) = match self.evolution {
             EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
             EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
@@ -476,6 +485,7 @@ impl Evolver {
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
+        self.rewind(current_time);
         let (new_love_number, left_index) = match self.evolution {
             EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
             _ => { (current_love_number, self.left_index - self.idx()) }
@@ -485,6 +495,7 @@ impl Evolver {
     }
 
     pub fn inverse_tidal_q_factor(&mut self, current_time: f64, current_inverse_tidal_q_factor: f64) -> f64 {
+        self.rewind(current_time);
         // The planet excite/induce waves in the convective region of the star
         // and the Q factor is a quality factor that describes that loss of energy.
         //
-- 
2.43.0


From 17726b5e6ab97ddcff55efadc1df1c5259bbb699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:08 +0000
Subject: [PATCH 18/30] fix: leave bodies without tides or flattening out of
 the host's torque

The distance of a body that takes no part in an effect is never set. The
torque on the host divided by it all the same, so that one body with
disabled tides turned the spin of the star into NaN.
---
 src/effects/rotational_flattening/common.rs | 3 +++
 src/effects/tides/common.rs                 | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 65a8a25..ba50954 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -183,6 +183,9 @@ pub fn calculate_dangular_momentum_dt_induced_by_rotational_flattening(rotationa
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let RotationalFlatteningEffect::Disabled = particle.rotational_flattening.effect {
+            continue; // No interaction with the host (its coordinates and distance are not set)
+        }
         if let RotationalFlatteningEffect::CentralBody(rotational_flattening_model) = rotational_flattening_host_particle.rotational_flattening.effect {
             let torque_induced_by_rotational_flattening = match rotational_flattening_model {
                 RotationalFlatteningModel::OblateSpheroid(_) => oblate_spheroid::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 97e78a9..3726955 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -241,6 +241,9 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let TidesEffect::Disabled = particle.tides.effect {
+            continue; // No tidal interaction with the host (its coordinates and distance are not set)
+        }
         if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -356,6 +359,9 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
         TidesEffect::CentralBody(TidalModel::Kaula(_))
     ) {
         for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+            if let TidesEffect::Disabled = particle.tides.effect {
+                continue; // No tidal interaction with the host (its coordinates and distance are not set)
+            }
             let tidal_force = kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
             let factor1 = 1. / particle.mass;
 
-- 
2.43.0


From c8d85dd1da565cbb450eb439c338da8db4fa7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:55 +0000
Subject: [PATCH 19/30] fix: set all distances for the full general relativity
 corrections

With two bodies left out of general relativity their distance stayed zero,
and the potential of one at the place of the other became infinite.
---
 src/effects/general_relativity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e612c71..90f6b10 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -708,13 +708,13 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
                                         .zip(drs_i.iter_mut())
                                         .enumerate() {
             if j != i{
-                if particle_i.general_relativity.effect != GeneralRelativityEffect::Disabled || particle_j.general_relativity.effect != GeneralRelativityEffect::Disabled {
-                    drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
-                    drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
-                    drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
-                    rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
-                    //println!("i j: {} {} {:e}", i, j, rs_i[j]);
-                }
+                // All distances are needed (even between two bodies with general relativity disabled),
+                // the constant terms add up the potential of every other body
+                drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
+                drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
+                drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
+                rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
+                //println!("i j: {} {} {:e}", i, j, rs_i[j]);
             }
         }
     }
-- 
2.43.0


From b8de22eeee05ae1c17c5e44772720eb587167af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:00 +0000
Subject: [PATCH 20/30] fix: Kaula tides around a host that is not the most
 massive body

The model used coordinates relative to the most massive body instead of
those relative to the tidal host, and ended in an out of bounds index.
---
 src/effects/tides/kaula.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 4f49174..a9c075c 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -63,14 +63,14 @@ fn calculate_tidal_force_component(tidal_host_particle: &mut Particle, particle:
     // !central_body ==> planetary tide ==> particle is the planet
     // central_body ==> stellar tide ==> tidal_host_particle is the planet
     if !central_body {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.heliocentric_position, particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.tides.coordinates.position, particle.tides.coordinates.velocity);
         radial_distance = particle.tides.parameters.internal.distance;
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = particle.tides.coordinates.position.z / radial_distance;
         cos_phi = particle.tides.coordinates.position.x / coplanar_distance;
         sin_phi = particle.tides.coordinates.position.y / coplanar_distance;
     } else {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity);
         radial_distance = tidal_host_particle.tides.parameters.internal.distance;
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = tidal_host_particle.tides.coordinates.position.z / radial_distance;
@@ -154,11 +154,11 @@ fn calculate_radial_component_of_the_tidal_force(
     let orbital_frequency: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        tem_radius = particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     argument_perihelion = longitude_perihelion - longitude_of_ascending_node;
     orbital_frequency = TWO_PI / (orbital_period * DAY); // The orbital mean motion in [rad.s^-1]
@@ -252,11 +252,11 @@ fn calculate_radial_component_of_the_tidal_force(
 
         if !central_body {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
         } else {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
         }
         particle_radius_5 = particle.radius.powi(5);
@@ -397,9 +397,9 @@ fn calculate_normal_component_of_the_tidal_force(
 
     let obliquity: f64;
     if !central_body {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
     let normal_force: f64;
@@ -417,11 +417,11 @@ fn calculate_normal_component_of_the_tidal_force(
 
         if !central_body {
             // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
             particle_radius_5 = particle.radius.powi(5);
         } else {
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
             particle_radius_5 = tidal_host_particle.radius.powi(5);
         }
@@ -655,9 +655,9 @@ fn calculate_orthogonal_component_of_the_tidal_force(
     let cste_2d: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
+        tem_radius = particle.tides.parameters.internal.distance;
         // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
         // spin = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2) + particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
@@ -665,8 +665,8 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     } else {
         // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
         // spin = tidal_host_particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
-- 
2.43.0


From 48faea38521789506e5cb45d0dabc0dde7328efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:23 +0000
Subject: [PATCH 21/30] fix: do not mix frames in the Newtonian accelerations
 for general relativity

The terms left out by WHFast were added with the distance between the host in
the inertial frame and the particles in the heliocentric one. For a body with
general relativity disabled the latter is not even set: the host got an
enormous acceleration, and orbits of the other bodies were blown up.
---
 src/effects/general_relativity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 90f6b10..9c5a4a7 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -658,9 +658,9 @@ fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle:
             n_particles = particles.len() + more_particles.len();
         }
         for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.general_relativity.coordinates.position.x;
-            let dy = host_particle.inertial_position.y - particle.general_relativity.coordinates.position.y;
-            let dz = host_particle.inertial_position.z - particle.general_relativity.coordinates.position.z;
+            let dx = host_particle.inertial_position.x - particle.inertial_position.x;
+            let dy = host_particle.inertial_position.y - particle.inertial_position.y;
+            let dz = host_particle.inertial_position.z - particle.inertial_position.z;
             let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
             let r = r2.sqrt();
             let prefac = G/(r2*r);
-- 
2.43.0


From 62469eae90a2e7a48a03ceaad77de292bf1698ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:19 +0000
Subject: [PATCH 22/30] fix: do not take an incomplete WHFast case for a
 LeapFrog one

---
 src/integrator/leapfrog.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/integrator/leapfrog.rs b/src/integrator/leapfrog.rs
index ff3abc9..57cd8e4 100644
--- a/src/integrator/leapfrog.rs
+++ b/src/integrator/leapfrog.rs
@@ -39,6 +39,7 @@ use std::any::Any;
 
 
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
+#[serde(deny_unknown_fields)] // its fields are a subset of those of WHFast
 pub struct LeapFrog {
     time_step: f64,
     half_time_step: f64,
-- 
2.43.0


From ff1c307f69d3b69701a2cf8afcf7bdc1e8a44765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:20 +0000
Subject: [PATCH 23/30] fix: refuse a new time limit that is not positive
 instead of ignoring it

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a941418..4b4b482 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -112,7 +112,11 @@ fn main() {
 
             new_historic_snapshot_period = resume_matches.get_one::<f64>("change_historic_snapshot_period").copied().unwrap_or(-1.);
             new_recovery_snapshot_period = resume_matches.get_one::<f64>("change_recovery_snapshot_period").copied().unwrap_or(-1.);
-            new_time_limit = resume_matches.get_one::<f64>("change_time_limit").copied().unwrap_or(-1.);
+            new_time_limit = match resume_matches.get_one::<f64>("change_time_limit").copied() {
+                Some(time_limit) if !(time_limit > 0.) => panic!("Your new time limit ({} days) is not positive", time_limit),
+                Some(time_limit) => time_limit,
+                None => -1.,
+            };
             execution_time_limit = Duration::from_secs(resume_matches.get_one::<u64>("limit").copied().unwrap_or(0));
         },
         _ => unreachable!(),
-- 
2.43.0


From c0069d53fad8d0609f522809ee942995370916bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:50 +0000
Subject: [PATCH 24/30] fix: refuse to start from a recovery snapshot before
 creating the history file

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 4b4b482..77632ee 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -138,6 +138,10 @@ fn main() {
         },
     };
 
+    if !resume && boxed_universe_integrator.get_n_historic_snapshots() > 0 {
+        panic!("[PANIC {} UTC] '{}' is the recovery snapshot of a simulation that was already started, resume it instead.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), first_universe_integrator_snapshot_filename);
+    }
+
     boxed_universe_integrator.set_snapshot_periods(new_historic_snapshot_period, new_recovery_snapshot_period);
     boxed_universe_integrator.set_time_limit(new_time_limit);
 
-- 
2.43.0


From 3c61c2e48ff72b764793f92f4f8db2bd7f645828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:42 +0000
Subject: [PATCH 25/30] fix: refuse to resume from a case description, which
 erased the existing history

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 77632ee..febbe09 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -142,6 +142,10 @@ fn main() {
         panic!("[PANIC {} UTC] '{}' is the recovery snapshot of a simulation that was already started, resume it instead.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), first_universe_integrator_snapshot_filename);
     }
 
+    if resume && boxed_universe_integrator.get_n_historic_snapshots() == 0 {
+        panic!("[PANIC {} UTC] '{}' is not the recovery snapshot of a started simulation, start it instead.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), first_universe_integrator_snapshot_filename);
+    }
+
     boxed_universe_integrator.set_snapshot_periods(new_historic_snapshot_period, new_recovery_snapshot_period);
     boxed_universe_integrator.set_time_limit(new_time_limit);
 
-- 
2.43.0


From 35fc4a8dc5fc4bc882d647988cb56e9a2df1db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:31 +0000
Subject: [PATCH 26/30] fix: close the case file before reporting it as written

The description was dumped into a file that only the interpreter closed: when the
last block could not be written (full disk, quota) the error was ignored and the
script ended normally, leaving a truncated case.
---
 posidonius/integrator/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/posidonius/integrator/common.py b/posidonius/integrator/common.py
index c1ed013..cb03ca3 100644
--- a/posidonius/integrator/common.py
+++ b/posidonius/integrator/common.py
@@ -15,5 +15,6 @@ class Integrator(object):
         self._data['hash'] = 0
 
     def write(self, filename):
-        json.dump(self._data, open(filename, "w"), indent=2, sort_keys=True)
+        with open(filename, "w") as f:
+            json.dump(self._data, f, indent=2, sort_keys=True)
 
-- 
2.43.0


From 3e04b2e7f71cf15f9f919c4cb20ea8cfa4ca74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:31 +0000
Subject: [PATCH 27/30] fix: ReferenceParticle always raised an unknown variant
 exception

---
 posidonius/particles/particle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/posidonius/particles/particle.py b/posidonius/particles/particle.py
index cbf43fe..368e31f 100644
--- a/posidonius/particles/particle.py
+++ b/posidonius/particles/particle.py
@@ -24,8 +24,8 @@ class Reference(object):
             },
         }
         if variant in ("Particle", ):
-            self._data[variant] = int(index)
-        if variant in ("MostMassiveParticle", ):
+            self._data = {variant: int(index)}
+        elif variant in ("MostMassiveParticle", ):
             self._data = variant
         else:
             raise Exception("Unknown variant '{}'".format(variant))
@@ -42,7 +42,7 @@ class MostMassiveParticle(Reference):
 
 class ReferenceParticle(Reference):
     def __init__(self, index):
-        super(ReferenceParticle, self).__init__("ReferenceParticle", index=index)
+        super(ReferenceParticle, self).__init__("Particle", index=index)
 
 
 class Particle(object):
-- 
2.43.0


From cece9bd2326c478251cd38e2e15ac344c302e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:31 +0000
Subject: [PATCH 28/30] fix: compare the end of the evolution tables with the
 time limit

It was compared with the initial time (the tables are already relative to it),
so a simulation longer than its tables was accepted.
---
 posidonius/particles/universe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index fea685a..f589677 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -130,8 +130,8 @@ class Universe(object):
         evolver = particle.get_evolver(self._data['initial_time'])
         if len(evolver['time']) > 0 and evolver['time'][0] > 0.:
             raise Exception("Your initial time ({} days | {:.2e} years) is smaller than the minimum allowed age of the star ({} days | {:.2e} years)".format(self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0]+self._data['initial_time'], (evolver['time'][0]+self._data['initial_time'])/365.25));
-        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['initial_time']:
-            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)", self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0], evolver['time'][0]/365.25)
+        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['time_limit']:
+            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)".format(self._data['time_limit']+self._data['initial_time'], (self._data['time_limit']+self._data['initial_time'])/365.25, evolver['time'][-1]+self._data['initial_time'], (evolver['time'][-1]+self._data['initial_time'])/365.25))
 
         if particle.evolution() != effects.evolution.NonEvolving and self._data["consider_effects"]["evolution"]:
             # Check if input radius is close enough to evolved radius at the corresponding time and update it + angular momentum if not
-- 
2.43.0


From b0a143bc026834ead6f2dc69345cffb497e76673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:31 +0000
Subject: [PATCH 29/30] fix: refuse one body more than the maximum number of
 particles

The extra body was accepted and written, and the case could not be started.
---
 posidonius/particles/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index f589677..5c02ec9 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -71,7 +71,7 @@ class Universe(object):
         self._data['n_particles'] -= 1 # Compensate the addition from the previous add_particle call
 
     def add_particle(self, particle):
-        if self._data['n_particles'] > MAX_PARTICLES:
+        if self._data['n_particles'] >= MAX_PARTICLES:
             raise Exception("Maximum number of particles reached: {}".format(MAX_PARTICLES))
 
         if effects.tides.CentralBody in particle.effects():
-- 
2.43.0


From 02eddae2dc2b8f6fd1f7ed53bd9810ab4ea0e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 30/30] fix: do not take a read error of the history for its
 end

---
 posidonius/analysis/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index 7755873..4c3daac 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -26,7 +26,7 @@ def read(filename):
             row = f.read(8+8+4+8*(len(fields)-3))
             #vrow = struct.unpack('> d d i' + ' d'*(len(fields)-3), row)
             vrow = struct.unpack('< d d i' + ' d'*(len(fields)-3), row)
-        except:
+        except struct.error:
             break
         else:
             data.append(vrow)
-- 
2.43.0

