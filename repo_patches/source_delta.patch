From 09bda4e6b5381fede0688c9b7b4600bd3882d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:25 +0000
Subject: [PATCH 01/57] fix: bodies without tides or flattening no longer enter
 the central body's torque

---
 src/effects/rotational_flattening/common.rs | 3 +++
 src/effects/tides/common.rs                 | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 65a8a25..ba0fa88 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -183,6 +183,9 @@ pub fn calculate_dangular_momentum_dt_induced_by_rotational_flattening(rotationa
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if !matches!(particle.rotational_flattening.effect, RotationalFlatteningEffect::OrbitingBody(_)) {
+            continue; // Bodies without the effect do not exert it on the central body
+        }
         if let RotationalFlatteningEffect::CentralBody(rotational_flattening_model) = rotational_flattening_host_particle.rotational_flattening.effect {
             let torque_induced_by_rotational_flattening = match rotational_flattening_model {
                 RotationalFlatteningModel::OblateSpheroid(_) => oblate_spheroid::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 944ba59..8819ec5 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -241,6 +241,9 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if !matches!(particle.tides.effect, TidesEffect::OrbitingBody(_)) {
+            continue; // Bodies without tides do not raise them on the central body
+        }
         if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -353,6 +356,9 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
         TidesEffect::CentralBody(TidalModel::Kaula(_))
     ) {
         for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+            if !matches!(particle.tides.effect, TidesEffect::OrbitingBody(_)) {
+                continue; // Bodies without tides do not raise them on the central body
+            }
             let tidal_force = kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
             let factor1 = 1. / particle.mass;
 
-- 
2.43.0


From a710038a0581147e0e96f16f69ef768e756412a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:01 +0000
Subject: [PATCH 02/57] fix: rotational flattening of a body without spin is
 zero instead of NaN

---
 .../rotational_flattening/oblate_spheroid.rs  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/effects/rotational_flattening/oblate_spheroid.rs b/src/effects/rotational_flattening/oblate_spheroid.rs
index 69b4d1d..6515bfc 100644
--- a/src/effects/rotational_flattening/oblate_spheroid.rs
+++ b/src/effects/rotational_flattening/oblate_spheroid.rs
@@ -36,12 +36,20 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
                     // - Star Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation = particle.mass * rotational_flattening_host_particle_love_number * rotational_flattening_host_particle.norm_spin_vector_2 * rotational_flattening_host_particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = if rotational_flattening_host_particle.norm_spin_vector_2 > 0. {
+                        -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5))
+                    } else {
+                        0. // No rotation, no flattening
+                    };
                 } else {
                     // - Planet Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation = rotational_flattening_host_particle.mass * params.love_number * particle.norm_spin_vector_2 * particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = if particle.norm_spin_vector_2 > 0. {
+                        -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5))
+                    } else {
+                        0. // No rotation, no flattening
+                    };
                 }
             }
         }
@@ -51,10 +59,13 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
 pub fn calculate_radial_component_of_the_force_induced_by_rotational_flattening(rotational_flattening_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
         if let RotationalFlatteningEffect::OrbitingBody(_) = particle.rotational_flattening.effect {
+            // A body without rotation is not flattened
+            let star_term = if rotational_flattening_host_particle.norm_spin_vector_2 > 0. { particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2 } else { 0. };
+            let planet_term = if particle.norm_spin_vector_2 > 0. { particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2 } else { 0. };
             // - First part of Equation 15 from Bolmont et al. 2015
             particle.rotational_flattening.parameters.internal.radial_component_of_the_force_induced_by_rotation = -3./particle.rotational_flattening.parameters.internal.distance.powi(5) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation)
-                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2
-                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2); // Msun.AU.day-1
+                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (star_term
+                    + planet_term); // Msun.AU.day-1
         }
     }
 }
-- 
2.43.0


From 111b2e79b84f489c97c1c0a2adf6ade7cb0a5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:17 +0000
Subject: [PATCH 03/57] fix: detect ejected particles listed before the most
 massive one

---
 src/particles/universe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 16c9b0c..ad13ca5 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -231,9 +231,10 @@ impl Universe {
                         println!("\n");
                         panic!("[PANIC {} UTC] Collision between particle {} and {}!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), i, j);
                     }
-                    if MAX_DISTANCE_2 > 0. && i == self.hosts.index.most_massive && distance_2 > MAX_DISTANCE_2 {
+                    if MAX_DISTANCE_2 > 0. && (i == self.hosts.index.most_massive || j == self.hosts.index.most_massive) && distance_2 > MAX_DISTANCE_2 {
+                        let ejected = if i == self.hosts.index.most_massive { j } else { i };
                         println!("\n");
-                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), j);
+                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), ejected);
                     }
                 }
                 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 800f236be3f5859fbda186bddb8b5e8f0a567532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:17 +0000
Subject: [PATCH 04/57] fix: resume --time-limit no longer panics (parsed as
 u64 but read as f64)

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a38792..a99ebb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,7 @@ fn main() {
                                     .arg(Arg::new("change_time_limit")
                                         .long("time-limit")
                                         .value_name("days")
-                                        .value_parser(value_parser!(u64))
+                                        .value_parser(value_parser!(f64))
                                         .help("Set new simulation time limit in days."))
                                     )
                             .subcommand_required(true)
-- 
2.43.0


From e06caed844d7b6443a27f3fb7e82cfaa75d56676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:48 +0000
Subject: [PATCH 05/57] fix: keep writing periodic recovery snapshots when an
 execution time limit is set

---
 src/main.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a99ebb7..dbc7bfa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,14 +158,11 @@ fn main() {
     loop {
         match boxed_universe_integrator.iterate(&mut universe_history_writer, silent_mode) {
             Ok(recovery_snapshot_time_trigger) => {
-                if enabled_execution_time_limit {
-                    let elapsed = instant.elapsed();
-                    if elapsed >= execution_time_limit {
-                        // Save a universe snapshot so that we can resume later on
-                        boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-                        println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
-                        break;
-                    }
+                if enabled_execution_time_limit && instant.elapsed() >= execution_time_limit {
+                    // Save a universe snapshot so that we can resume later on
+                    boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
+                    println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
+                    break;
                 } else if recovery_snapshot_time_trigger {
                     // Save a universe snapshot so that we can resume in case of failure
                     boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
-- 
2.43.0


From 87c6190653d464116048175e885d6bdfcbe1cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:07 +0000
Subject: [PATCH 06/57] fix: snapshots are fully written before returning, JSON
 backups keep their format and extensionless paths work

---
 src/integrator/output.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 38a0662..b2edf12 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -36,21 +36,25 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
         //// Backup (keep only 1 per hour thanks to filename collision)
         //let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[hour]h)).unwrap());
         // Backup (keep only 1 every 12 hours thanks to filename collision)
-        let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap());
+        let new_extension = format!("{0}.{1}", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap(), if is_json_path(snapshot_path) { "json" } else { "bin" });
         fs::rename(snapshot_path, snapshot_path.with_extension(new_extension)).unwrap();
     }
 
     // 1.- Serialize the integrator to be able to resume if the simulation is interrupted
     let mut writer = BufWriter::new(File::create(&snapshot_path).unwrap());
 
-    if snapshot_path.extension().unwrap() == "json" {
+    if is_json_path(snapshot_path) {
         let json_encoded = serde_json::to_string_pretty(&universe_integrator).unwrap();
-        writer.write(json_encoded.as_bytes()).unwrap();
+        writer.write_all(json_encoded.as_bytes()).unwrap();
     } else {
         // Binary
         bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
     }
+    writer.flush().unwrap(); // Errors are ignored if the buffer is only flushed when dropped
+}
 
+fn is_json_path(path: &Path) -> bool {
+    path.extension().map_or(false, |extension| extension == "json")
 }
 
 
@@ -183,7 +187,7 @@ pub fn restore_snapshot(universe_integrator_snapshot_path: &Path) -> Result<Box<
             return Err(format!("Couldn't open {}: {}", universe_integrator_snapshot_path.display(), why))
         }
 
-        if universe_integrator_snapshot_path.extension().unwrap() == "json" { 
+        if is_json_path(universe_integrator_snapshot_path) { 
             universe_integrator = deserialize_json_snapshot(&universe_integrator_snapshot_path).unwrap();
         } else {
             universe_integrator = deserialize_bin_snapshot(&universe_integrator_snapshot_path).unwrap();
-- 
2.43.0


From f1f43e470ec508868fb8994449fa4371971bc0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:28 +0000
Subject: [PATCH 07/57] fix: refuse binary snapshots with left over bytes
 (truncated snapshots of another integrator)

---
 src/integrator/output.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index b2edf12..afc148d 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -11,6 +11,7 @@ use super::super::tools::calculate_keplerian_orbital_elements;
 use bincode;
 use time::{OffsetDateTime, format_description};
 use serde::{Serialize};
+use serde::de::DeserializeOwned;
 use serde_json;
 use std::path::Path;
 use std::fs;
@@ -244,11 +245,20 @@ fn deserialize_json_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>
     }
 }
 
+fn deserialize_complete_bin<R: Read, T: DeserializeOwned>(reader: &mut R) -> Result<T, bincode::Error> {
+    let value = bincode::deserialize_from(&mut *reader)?;
+    // Left over bytes indicate that it is a (broken) snapshot of another kind of integrator
+    if reader.read(&mut [0])? > 0 {
+        return Err(bincode::ErrorKind::Custom("Unexpected trailing bytes".to_string()).into());
+    }
+    Ok(value)
+}
+
 fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>, String> {
     // Open the path in read-only mode, returns `io::Result<File>`
     let snapshot_file = File::open(&snapshot_path).unwrap();
     let mut reader = BufReader::new(&snapshot_file);
-    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = bincode::deserialize_from(&mut reader);
+    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = deserialize_complete_bin(&mut reader);
     match wrapped_universe_integrator {
         Ok(universe_integrator) => {
             println!("[INFO {} UTC] WHFAST Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
@@ -258,7 +268,7 @@ fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>,
             // Re-open file because the previous File/BufReader was already consumed
             let snapshot_file = File::open(&snapshot_path).unwrap();
             let mut reader = BufReader::new(&snapshot_file);
-            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = bincode::deserialize_from(&mut reader);
+            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = deserialize_complete_bin(&mut reader);
             match wrapped_universe_integrator {
                 Ok(universe_integrator) => {
                     println!("[INFO {} UTC] IAS15 Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
@@ -268,7 +278,7 @@ fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>,
                     // Re-open file because the previous File/BufReader was already consumed
                     let snapshot_file = File::open(&snapshot_path).unwrap();
                     let mut reader = BufReader::new(&snapshot_file);
-                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = bincode::deserialize_from(&mut reader);
+                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = deserialize_complete_bin(&mut reader);
                     match wrapped_universe_integrator {
                         Ok(universe_integrator) => {
                             println!("[INFO {} UTC] LeapFrog Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
-- 
2.43.0


From 816063d9610b7b8f9d7bf76ba8bd90aceb0a8235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:45 +0000
Subject: [PATCH 08/57] fix: compute the additional effects before the first
 historic snapshot (dissipated energy was NaN)

---
 src/integrator/ias15.rs    | 5 +++++
 src/integrator/leapfrog.rs | 5 +++++
 src/integrator/whfast.rs   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 3f960cc..40a8df8 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -414,6 +414,11 @@ impl Integrator for Ias15 {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // Needed by the first historic snapshot (e.g., energy dissipated by tides)
+        self.universe.inertial_to_heliocentric();
+        let dangular_momentum_dt = true;
+        let accelerations = true;
+        self.universe.calculate_additional_effects(self.current_time, evolution, dangular_momentum_dt, accelerations, IgnoreGravityTerms::None);
     }
 
 
diff --git a/src/integrator/leapfrog.rs b/src/integrator/leapfrog.rs
index ed6d8ca..be9d477 100644
--- a/src/integrator/leapfrog.rs
+++ b/src/integrator/leapfrog.rs
@@ -146,6 +146,11 @@ impl Integrator for LeapFrog {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // Needed by the first historic snapshot (e.g., energy dissipated by tides)
+        self.universe.inertial_to_heliocentric();
+        let dangular_momentum_dt = true;
+        let accelerations = true;
+        self.universe.calculate_additional_effects(self.current_time, evolution, dangular_momentum_dt, accelerations, IgnoreGravityTerms::None);
     }
 
     fn iterate(&mut self, universe_history_writer: &mut BufWriter<File>, silent_mode: bool) -> Result<bool, String> {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f199906..e0054c7 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -230,6 +230,11 @@ impl Integrator for WHFast {
         let evolution = true;
         self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution); // Make sure we start with the good initial values
         self.universe.calculate_roche_radiuses(); // Needed for collision detection
+        // Needed by the first historic snapshot (e.g., energy dissipated by tides)
+        self.universe.inertial_to_heliocentric();
+        let dangular_momentum_dt = true;
+        let accelerations = true;
+        self.universe.calculate_additional_effects(self.current_time, evolution, dangular_momentum_dt, accelerations, IgnoreGravityTerms::None);
     }
 
     fn iterate(&mut self, universe_history_writer: &mut BufWriter<File>, silent_mode: bool) -> Result<bool, String> {
-- 
2.43.0


From bc2b99541339dff533c4f6e565fed77e06ef08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:02 +0000
Subject: [PATCH 09/57] fix: general relativity (Newhall 1983) with several
 bodies without the effect no longer yields infinite accelerations

---
 src/effects/general_relativity.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e612c71..742bdd2 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -708,13 +708,12 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
                                         .zip(drs_i.iter_mut())
                                         .enumerate() {
             if j != i{
-                if particle_i.general_relativity.effect != GeneralRelativityEffect::Disabled || particle_j.general_relativity.effect != GeneralRelativityEffect::Disabled {
-                    drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
-                    drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
-                    drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
-                    rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
-                    //println!("i j: {} {} {:e}", i, j, rs_i[j]);
-                }
+                // Distances are needed for all the pairs, even if both bodies have the effect disabled
+                drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
+                drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
+                drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
+                rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
+                //println!("i j: {} {} {:e}", i, j, rs_i[j]);
             }
         }
     }
-- 
2.43.0


From 4f890e04b465eeb1e190b5a0eeb042b1a99a27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:33 +0000
Subject: [PATCH 10/57] fix: restore the gravity terms ignored by WHFast from
 the inertial positions in general relativity

---
 src/effects/general_relativity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 742bdd2..249f76a 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -658,9 +658,9 @@ fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle:
             n_particles = particles.len() + more_particles.len();
         }
         for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.general_relativity.coordinates.position.x;
-            let dy = host_particle.inertial_position.y - particle.general_relativity.coordinates.position.y;
-            let dz = host_particle.inertial_position.z - particle.general_relativity.coordinates.position.z;
+            let dx = host_particle.inertial_position.x - particle.inertial_position.x;
+            let dy = host_particle.inertial_position.y - particle.inertial_position.y;
+            let dz = host_particle.inertial_position.z - particle.inertial_position.z;
             let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
             let r = r2.sqrt();
             let prefac = G/(r2*r);
-- 
2.43.0


From ea903529f3f0a99224a7d438f898b14cbeccfab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:42 +0000
Subject: [PATCH 11/57] fix: evolving quantities are interpolated correctly
 when the time goes back

---
 src/effects/evolution.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index fa389a1..d301095 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -446,9 +446,9 @@ impl Evolver {
     // OPTIMIZATION: Skip first N elements which belong to the past
     // but still go through the last n elements just in case the integrator
     // is travelling to the past (e.g., current time step did not converge)
-    fn idx(&self) -> usize {
+    fn idx(&self, current_time: f64) -> usize {
         let security_shift = 10;
-        if self.left_index > security_shift {
+        if self.left_index > security_shift && self.time[self.left_index - security_shift] <= current_time {
             return self.left_index - security_shift;
         } else {
             return 0;
@@ -456,31 +456,34 @@ impl Evolver {
     }
 
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_radius, left_index) = match self.evolution {
-            EvolutionType::NonEvolving => { (current_radius, 0) },
-            _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
+            EvolutionType::NonEvolving => { (current_radius, self.left_index - idx) },
+            _ => { linear_interpolation(current_time, &self.time[idx..], &self.radius[idx..]) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_radius;
     }
 
     pub fn radius_of_gyration_2(&mut self, current_time: f64, current_radius_of_gyration_2: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_radius_of_gyration_2, left_index) = match self.evolution {
-            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            _ => { (current_radius_of_gyration_2, 0) }
+            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            _ => { (current_radius_of_gyration_2, self.left_index - idx) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_radius_of_gyration_2;
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_love_number, left_index) = match self.evolution {
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
-            _ => { (current_love_number, 0) }
+            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[idx..], &self.love_number[idx..]) },
+            _ => { (current_love_number, self.left_index - idx) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_love_number;
     }
 
@@ -502,13 +505,14 @@ impl Evolver {
         // The tidal theory (and this code) assumes circular orbits because they are easier.
         // Excentric orbits needs more than one frequency to be described and it will be
         // included in future versions of this code.
+        let idx = self.idx(current_time);
         let (new_inverse_tidal_q_factor, left_index) = match self.evolution {
             EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true) => {
-                linear_interpolation(current_time, &self.time[self.idx()..], &self.inverse_tidal_q_factor[self.idx()..])
+                linear_interpolation(current_time, &self.time[idx..], &self.inverse_tidal_q_factor[idx..])
             },
-            _ => (current_inverse_tidal_q_factor, 0),
+            _ => (current_inverse_tidal_q_factor, self.left_index - idx),
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_inverse_tidal_q_factor;
     }
 }
-- 
2.43.0


From f5afe3b28dee33f455f4226881fe7a90fdaaad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:08 +0000
Subject: [PATCH 12/57] fix: apply the evolution of the love number to the
 particle instead of a copy

---
 src/effects/evolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index d301095..3e46f6b 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -535,9 +535,9 @@ pub fn calculate_particles_non_spin_dependent_evolving_quantities(current_time:
         ////////////////////////////////////////////////////////////////////
         // Love number
         ////////////////////////////////////////////////////////////////////
-        match &particle.tides.effect {
+        match &mut particle.tides.effect {
             TidesEffect::CentralBody(tidal_model) | TidesEffect::OrbitingBody(tidal_model) => {
-                if let TidalModel::ConstantTimeLag(mut params) = tidal_model {
+                if let TidalModel::ConstantTimeLag(params) = tidal_model {
                     params.love_number = evolver.love_number(current_time, params.love_number);
                 }
             },
-- 
2.43.0


From 2fa2565d2a5fe204f611bce43718212842d2a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:17 +0000
Subject: [PATCH 13/57] fix: WHFast and IAS15 spin down bodies when wind is the
 only effect

---
 src/integrator/ias15.rs  | 4 ++--
 src/integrator/whfast.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 40a8df8..b0f368f 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -533,7 +533,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
 
         loop {
 
@@ -1350,7 +1350,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
         if ratio > 20. {
             // Do not predict if stepsize increase is very large.
             for k in 0..3*self.n_particles {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index e0054c7..e3d56ed 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -277,7 +277,7 @@ impl Integrator for WHFast {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.wind || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
 
         let evolution = true;
         self.integrate_velocity_dependent_forces(self.half_time_step, integrate_spin, evolution); // Corrects the inertial velocity and computes spin
-- 
2.43.0


From 6b4d396179cca7031b20774170a574eaa3527b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:06 +0000
Subject: [PATCH 14/57] fix: discard the dissipation factor of the right pair
 when an orbiting body leaves the dynamical tide regime

---
 src/effects/tides/constant_time_lag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/constant_time_lag.rs b/src/effects/tides/constant_time_lag.rs
index d5d157a..370786c 100644
--- a/src/effects/tides/constant_time_lag.rs
+++ b/src/effects/tides/constant_time_lag.rs
@@ -129,7 +129,7 @@ fn calculate_host_dependent_scaled_dissipation_factors(tidal_host_particle: &mut
                             set_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id, host_dependent_scaled_dissipation_factor);
                         } else {
                             // Equilibrium regime (not dynamical tide)
-                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, tidal_host_particle.id, particle.id);
+                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id);
                         }
                     }
                 }
-- 
2.43.0


From 03ccc8ef9908db5d24d0752e8b78dd0a7720a720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:36 +0000
Subject: [PATCH 15/57] fix: look up Kaula love numbers only among the given
 datapoints

---
 src/effects/tides/kaula.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 4f49174..90dcd4c 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1020,6 +1020,13 @@ fn calculate_kaula_numbers(mut wk2: f64, kaula_param: &KaulaParameters, central_
         wk2 = wk2.abs();
     }
 
+    // Only the first datapoints are part of the table (0 means that the whole array is used)
+    let num_datapoints = match kaula_param.num_datapoints as usize {
+        0 => kaula_param.love_number_excitation_frequency.len(),
+        n => n.min(kaula_param.love_number_excitation_frequency.len()),
+    };
+    let love_number_excitation_frequency = &kaula_param.love_number_excitation_frequency[..num_datapoints];
+
     let im_k2;
     let re_k2;
     // Find the index of the closest match to use for the interpolation
@@ -1028,17 +1035,17 @@ fn calculate_kaula_numbers(mut wk2: f64, kaula_param: &KaulaParameters, central_
     // assert!(wk2 >love_number_excitation_frequency[0]);
     // assert!(wk2 < love_number_excitation_frequency[love_number_excitation_frequency.len() - 1]);
 
-    if wk2 <= kaula_param.love_number_excitation_frequency[0] {
+    if wk2 <= love_number_excitation_frequency[0] {
         // If wk2 is less than or equal to the first element, take the first value
         im_k2 = kaula_param.imaginary_part_love_number[0];
         re_k2 = kaula_param.real_part_love_number[0];
-    } else if wk2 >= kaula_param.love_number_excitation_frequency[kaula_param.love_number_excitation_frequency.len() - 1] {
+    } else if wk2 >= love_number_excitation_frequency[num_datapoints - 1] {
         // If wk2 is greater than or equal to the last element, take the last value
-        im_k2 = kaula_param.imaginary_part_love_number[kaula_param.love_number_excitation_frequency.len() - 1];
-        re_k2 = kaula_param.real_part_love_number[kaula_param.love_number_excitation_frequency.len() - 1];
+        im_k2 = kaula_param.imaginary_part_love_number[num_datapoints - 1];
+        re_k2 = kaula_param.real_part_love_number[num_datapoints - 1];
     } else {
         // Find the index of the closest match to use for the interpolation
-        match kaula_param.love_number_excitation_frequency.binary_search_by(|val| val.total_cmp(&wk2))
+        match love_number_excitation_frequency.binary_search_by(|val| val.total_cmp(&wk2))
         {
             Ok(i) => {
                 // Exact match found: love_number[i] == wk2
@@ -1047,8 +1054,8 @@ fn calculate_kaula_numbers(mut wk2: f64, kaula_param: &KaulaParameters, central_
             }
             Err(i) => {
                 // wk2 is between love_number[i - 1] and love_number[i]
-                let prev_freq = kaula_param.love_number_excitation_frequency[i - 1];
-                let next_freq = kaula_param.love_number_excitation_frequency[i];
+                let prev_freq = love_number_excitation_frequency[i - 1];
+                let next_freq = love_number_excitation_frequency[i];
                 let delta = (wk2 - prev_freq) / (next_freq - prev_freq);
                 im_k2 = (1.0 - delta) * kaula_param.imaginary_part_love_number[i - 1] + delta * kaula_param.imaginary_part_love_number[i];
                 re_k2 = (1.0 - delta) * kaula_param.real_part_love_number[i - 1] + delta * kaula_param.real_part_love_number[i];
-- 
2.43.0


From d572953bfc2ed302bcb7b8f24f201e5c2bf0e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:03 +0000
Subject: [PATCH 16/57] fix: update the Roche radiuses when the radius of the
 particles evolves

---
 src/particles/universe.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index ad13ca5..742241e 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -313,6 +313,7 @@ impl Universe {
         if evolution && self.consider_effects.evolution {
             // Evolve quantities that require a computed spin
             evolution::calculate_particles_spin_dependent_evolving_quantities(current_time, &mut particles, &mut self.particles_evolvers);
+            self.calculate_roche_radiuses(); // They depend on the radius of the particles
         }
     }
 
-- 
2.43.0


From ee4fc1c1abe098f059b1d82ba817138e22c81ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:34 +0000
Subject: [PATCH 17/57] fix: compute the spin precession of Kidder 1995 also
 when only torques are requested (LeapFrog)

---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 742241e..bf4e9f2 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -489,7 +489,7 @@ impl Universe {
                 }
             }
         }
-        if accelerations && self.consider_effects.general_relativity {
+        if self.consider_effects.general_relativity && (accelerations || (dangular_momentum_dt && self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995)) {
             let (mut particles_left, particles_right) = particles.split_at_mut(self.hosts.index.general_relativity);
             if let Some((mut general_relativity_host_particle, mut particles_right)) = particles_right.split_first_mut() {
                 if let GeneralRelativityEffect::CentralBody(general_relativity_implementation) = general_relativity_host_particle.general_relativity.effect {
-- 
2.43.0


From 6b705336bef7a4ac93c7570dcc8021119394163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:32 +0000
Subject: [PATCH 18/57] fix: the bisection of the WHFast Kepler solver no
 longer loops forever on a non-finite state

---
 src/integrator/whfast.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index e3d56ed..d35a9bc 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -804,7 +804,8 @@ impl WHFast {
                 }
                 x = (x_max + x_min)/2.;
 
-                if (x_max-x_min).abs()/x_max <= 1e-15 {
+                if !(((x_max-x_min)/x_max).abs() > 1e-15) {
+                    // Converged (or the state is not finite and never will). Exit.
                     break;
                 }
             }
-- 
2.43.0


From baa1050b41a6abca9cf4a4a36558cb737fc828d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:03 +0000
Subject: [PATCH 19/57] fix: the velocity relative to the host is right also
 the first time it is computed (disk migration, general relativity)

---
 src/particles/universe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index bf4e9f2..048346b 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -334,9 +334,9 @@ impl Universe {
                                                                         particle.heliocentric_position.y*particle.heliocentric_velocity.y +
                                                                         particle.heliocentric_position.z*particle.heliocentric_velocity.z) 
                                                                         / particle.heliocentric_distance;
-                particle.heliocentric_norm_velocity_vector_2 = (particle.heliocentric_velocity.x - host_particle.heliocentric_velocity.x).powi(2) 
-                                                                + (particle.heliocentric_velocity.y - host_particle.heliocentric_velocity.y).powi(2)
-                                                                + (particle.heliocentric_velocity.z - host_particle.heliocentric_velocity.z).powi(2);
+                particle.heliocentric_norm_velocity_vector_2 = particle.heliocentric_velocity.x.powi(2) 
+                                                                + particle.heliocentric_velocity.y.powi(2)
+                                                                + particle.heliocentric_velocity.z.powi(2);
                 particle.heliocentric_norm_velocity_vector = particle.heliocentric_norm_velocity_vector_2.sqrt();
             }
             host_particle.heliocentric_position.x = 0.;
-- 
2.43.0


From 2ca48a3f45f02a300fbba2156b6d600035b05a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:01 +0000
Subject: [PATCH 20/57] fix: fourth order coefficient of the Kaula eccentricity
 function G_20q for q=2 (115/6)

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 90dcd4c..e667996 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1246,7 +1246,7 @@ impl Polynomials {
         self.eccentricity_function_g_2pq[0][6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_2pq[0][7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_2pq[0][8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_2pq[0][10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_2pq[0][11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_2pq[0][12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
@@ -1322,7 +1322,7 @@ impl Polynomials {
         self.eccentricity_function_g_20q[6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_20q[7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_20q[8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_20q[10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_20q[11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_20q[12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
-- 
2.43.0


From 2c80d3f34795fe9b278e8a8897ba65d62df48b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:01 +0000
Subject: [PATCH 21/57] fix: the radial Kaula force of a circular coplanar
 orbit depends on the real part of both love numbers

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index e667996..2ee09e6 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -186,8 +186,8 @@ fn calculate_radial_component_of_the_tidal_force(
             let frequ_2010 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(0., 1., 0., spin, orbital_frequency);
             let frequ_2200 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(2., 0., 0., spin, orbital_frequency);
             let (rek2_2010, _imk2_2010) = calculate_kaula_numbers(frequ_2010, kaula_param, central_body);
-            let (_rek2_2200, imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
-            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * imk2_2200);
+            let (rek2_2200, _imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
+            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * rek2_2200);
             radial_force_secular = radial_force;
         } else {
             //  --- If eccentric orbit
-- 
2.43.0


From cbfa65f0c9e63bffc63cb9cd8cf1d567ff55c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:01 +0000
Subject: [PATCH 22/57] fix: the tangential Kaula stellar tide depends on the
 perturber mass and the radius of the star

---
 src/effects/tides/kaula.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 2ee09e6..8e1958c 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -671,7 +671,7 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         sin_theta = coplanar_distance / distance;
-        cste_2d = -(G * particle.mass.powi(2) * tidal_host_particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
+        cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The stellar/planetary spin in [rad.s^-1]
 
-- 
2.43.0


From 8041174b9be67a8b53056caba2184037105cdc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:01 +0000
Subject: [PATCH 23/57] fix: the real part of the love numbers attracts also in
 the coplanar Kaula tide (its sign was changed)

---
 src/effects/tides/kaula.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 8e1958c..8e0c210 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -187,7 +187,7 @@ fn calculate_radial_component_of_the_tidal_force(
             let frequ_2200 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(2., 0., 0., spin, orbital_frequency);
             let (rek2_2010, _imk2_2010) = calculate_kaula_numbers(frequ_2010, kaula_param, central_body);
             let (rek2_2200, _imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
-            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * rek2_2200);
+            radial_force = -cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * rek2_2200);
             radial_force_secular = radial_force;
         } else {
             //  --- If eccentric orbit
@@ -226,11 +226,11 @@ fn calculate_radial_component_of_the_tidal_force(
                     let alpha_qj = alpha_pqkj(0., q as f64 - order as f64, 0., j as f64 - order as f64, mean_anomaly, argument_perihelion);
                     let (g_20j, g_21j) = g_201j;
 
-                    sum_over_j_1 += g_21j * (alpha_qj.cos() * rek2_201q - alpha_qj.sin() * imk2_201q);
-                    sum_over_j_3 += g_20j * (alpha_qj.cos() * rek2_220q - alpha_qj.sin() * imk2_220q);
+                    sum_over_j_1 += g_21j * (-alpha_qj.cos() * rek2_201q - alpha_qj.sin() * imk2_201q);
+                    sum_over_j_3 += g_20j * (-alpha_qj.cos() * rek2_220q - alpha_qj.sin() * imk2_220q);
                     if q == j {
-                        sum_over_j_1_secular += g_21j * rek2_201q;
-                        sum_over_j_3_secular += g_20j * rek2_220q;
+                        sum_over_j_1_secular -= g_21j * rek2_201q;
+                        sum_over_j_3_secular -= g_20j * rek2_220q;
                     }
                 } // end loop over j
 
@@ -722,7 +722,7 @@ fn calculate_orthogonal_component_of_the_tidal_force(
                 for (j, g_20j) in kaula_param.polynomials.eccentricity_function_g_20q.iter().skip(q_min).take(q_max).enumerate() {
                     let alpha_qj = alpha_pqkj(0., q as f64 - order as f64, 0., j as f64 - order as f64, mean_anomaly, argument_perihelion);
 
-                    sum_over_j_2 += g_20j * (alpha_qj.sin() * rek2_220q + alpha_qj.cos() * imk2_220q);
+                    sum_over_j_2 += g_20j * (-alpha_qj.sin() * rek2_220q + alpha_qj.cos() * imk2_220q);
                     if q == j {
                         // --- the secular part of the force
                         sum_over_j_2_secular += g_20j * imk2_220q;
-- 
2.43.0


From 8403095e41eec83506a5f2e767fcdcb87e7c6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:25 +0000
Subject: [PATCH 24/57] fix: series and lag of the polar oblateness in the
 creep tide (signs of two eccentricity coefficients, first power of the lag)

---
 src/effects/tides/creep_coplanar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index c542655..1fe400e 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -418,7 +418,7 @@ pub fn calculate_particle_shape(
                     + (2.0 * primary_spin - (9.0 - dk) * mean_motion) * (equatorial_angles).cos());
              sum_epsilon_z += cayley[0][k]
                 / ((dk - 7.0).powi(2) * mean_motion.powi(2) + relaxation_factor.powi(2))
-                * ((dk - 7.0).powi(2) * mean_motion.powi(2) * (polar_angles).sin()
+                * ((dk - 7.0) * mean_motion * relaxation_factor * (polar_angles).sin()
                     + relaxation_factor.powi(2) * (polar_angles).cos());
             //sum_x_component_of_the_equatorial_prolateness += 0.0;
             //sum_y_component_of_the_equatorial_prolateness += 0.0;
@@ -468,8 +468,8 @@ fn calculate_cayley_coefficients(e: f64) -> [[f64; 15]; 2] {
     cayley[0][3] = 77.0 / 16.0 * e4 + 129.0 / 160.0 * e6;
     cayley[0][4] = 53.0 / 16.0 * e3 + 393.0 / 256.0 * e5 + 24753.0 / 10240.0 * e7;
     cayley[0][5] = 9.0 / 4.0 * e2 + 7.0 / 4.0 * e4 + 141.0 / 64.0 * e6;
-    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 - 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
-    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 - 35.0 / 16.0 * e6;
+    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 + 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
+    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 + 35.0 / 16.0 * e6;
     cayley[0][8] = cayley[0][6];
     cayley[0][9] = cayley[0][5];
     cayley[0][10] = cayley[0][4];
-- 
2.43.0


From 964f62c6122f884f9b249a2554a7f4649f5024cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:25 +0000
Subject: [PATCH 25/57] fix: a central body without viscosity does not creep
 (its spin became NaN)

---
 src/effects/tides/creep_coplanar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 1fe400e..e433123 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -245,6 +245,10 @@ pub fn calculate_particle_shape(
     ): (f64, f64);
     let alpha: f64;
     let mean_motion_to_relaxation_factor_ratio: f64;
+    if uniform_viscosity_coefficient == 0. {
+        // Bodies without viscosity do not creep
+        return Axes{x: 0., y: 0., z: 0.};
+    }
     let (
         equatorial_prolateness_constant_coefficient,
         equatorial_prolateness_cosine_coefficient,
-- 
2.43.0


From 54493ad311bdfae9ca9d4c8eb56d42ff65433a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:58 +0000
Subject: [PATCH 26/57] fix: creep flattening no longer depends on the tides
 being considered (its shape became NaN)

---
 src/effects/tides/creep_coplanar.rs | 46 +++++++++++++++--------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index e433123..d685cd3 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -7,6 +7,7 @@ use super::super::super::{Particle};
 use super::super::super::{Axes};
 use super::common::TidesEffect;
 use super::common::TidalModel;
+use super::super::rotational_flattening::{RotationalFlatteningEffect, RotationalFlatteningModel};
 
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct CreepCoplanarParameters {
@@ -149,6 +150,11 @@ pub fn calculate_creep_coplanar_shapes(tidal_host_particle: &mut Particle, parti
 
 pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle: &Particle, consider_tides: bool, consider_rotational_flattening: bool, central_body: bool) -> Axes {
     let gm = tidal_host_particle.mass_g + particle.mass_g;
+    // Each effect keeps its own coordinates, which are only updated if the effect is considered
+    let (position, velocity) = match consider_tides {
+        true => (particle.tides.coordinates.position, particle.tides.coordinates.velocity),
+        false => (particle.rotational_flattening.coordinates.position, particle.rotational_flattening.coordinates.velocity),
+    };
     let (
         semimajor_axis,
         _perihelion_distance,
@@ -160,8 +166,8 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
         orbital_period,
     ) = tools::calculate_keplerian_orbital_elements(
         gm,
-        particle.tides.coordinates.position,
-        particle.tides.coordinates.velocity,
+        position,
+        velocity,
     );
     //let true_anomaly = calculate_true_anomaly(eccentricity, mean_anomaly);
 
@@ -169,16 +175,7 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
 
     let shape = match central_body {
         false => {
-            let particle_uniform_viscosity_coefficient = match &particle.tides.effect {
-                TidesEffect::OrbitingBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
+            let particle_uniform_viscosity_coefficient = get_uniform_viscosity_coefficient(particle, consider_tides);
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -194,16 +191,7 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
             )
         },
         true => {
-            let tidal_host_particle_uniform_viscosity_coefficient = match &tidal_host_particle.tides.effect {
-                TidesEffect::CentralBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
+            let tidal_host_particle_uniform_viscosity_coefficient = get_uniform_viscosity_coefficient(tidal_host_particle, consider_tides);
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -222,6 +210,20 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
     shape
 }
 
+fn get_uniform_viscosity_coefficient(particle: &Particle, consider_tides: bool) -> f64 {
+    if consider_tides {
+        match &particle.tides.effect {
+            TidesEffect::CentralBody(TidalModel::CreepCoplanar(params)) | TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        }
+    } else {
+        match &particle.rotational_flattening.effect {
+            RotationalFlatteningEffect::CentralBody(RotationalFlatteningModel::CreepCoplanar(params)) | RotationalFlatteningEffect::OrbitingBody(RotationalFlatteningModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        }
+    }
+}
+
 pub fn calculate_particle_shape(
     semimajor_axis: f64,
     eccentricity: f64,
-- 
2.43.0


From 39758694413c3dac80743177e612c163b8023521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 27/57] fix: the Jacobi interaction step softened the central
 attraction it has to subtract exactly

---
 src/integrator/whfast.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index d35a9bc..dc4fc21 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -570,7 +570,6 @@ impl WHFast {
 
     fn jacobi_interaction_step(&mut self, _dt: f64){
         self.inertial_to_jacobi_acc();
-        let softening = 1e-12;
         let (_, particles_right) = self.universe.particles[..self.universe.n_particles].split_at_mut(self.universe.hosts.index.most_massive);
         if let Some((star, _)) = particles_right.split_first_mut() {
             let m0 = star.mass;
@@ -583,7 +582,7 @@ impl WHFast {
                     particle_alternative_coordinates.velocity.y += _dt * particle_alternative_coordinates.acceleration.y;
                     particle_alternative_coordinates.velocity.z += _dt * particle_alternative_coordinates.acceleration.z;
                     if i > 0 { // The star is already out of the loop, ignore first planet too (it should be the closer to the star)
-                        let rj2i = 1./(particle_alternative_coordinates.position.x.powi(2) + particle_alternative_coordinates.position.y.powi(2) + particle_alternative_coordinates.position.z.powi(2) + softening);
+                        let rj2i = 1./(particle_alternative_coordinates.position.x.powi(2) + particle_alternative_coordinates.position.y.powi(2) + particle_alternative_coordinates.position.z.powi(2));
                         let rji = rj2i.sqrt();
                         let rj3im = rji*rj2i*G*eta;
                         let prefac = _dt*rj3im;
-- 
2.43.0


From 5106f982205aa79b2448846e67fb11c316f9094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:37 +0000
Subject: [PATCH 28/57] fix: the effects are initialised with the current spin
 (the spin of the previous evaluation made the trajectory depend on the output
 period)

---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 048346b..be47d4e 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -428,8 +428,8 @@ impl Universe {
     }
 
     pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
-        self.initialize(dangular_momentum_dt, accelerations);
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
+        self.initialize(dangular_momentum_dt, accelerations); // uses the spin
 
         let (mut particles, _) = self.particles.split_at_mut(self.n_particles);
         if dangular_momentum_dt && self.consider_effects.wind {
-- 
2.43.0


From ad3bab608bf7ca114b1a29b29e8a506123d4cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:40 +0000
Subject: [PATCH 29/57] fix: report a failure to write the last part of the
 history (it was ignored when the buffer was dropped)

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index dbc7bfa..24f62eb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ extern crate time;
 extern crate clap;
 use clap::{Arg, ArgAction, Command};
 use clap::value_parser;
+use std::io::Write;
 use std::path::Path;
 use std::time::{Duration, Instant};
 use time::{OffsetDateTime, format_description};
@@ -172,6 +173,8 @@ fn main() {
         };
     }
 
+    universe_history_writer.flush().unwrap(); // Errors are ignored if the buffer is only flushed when dropped
+
     let duration = timer.elapsed(); // duration
     if !resume {
         println!("[INFO {} UTC] Execution time: {} seconds", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), duration.as_secs_f64());
-- 
2.43.0


From bbf5b39af009735913bc0dd2b977c7fac7a5310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 30/57] fix: Kepler's equation for negative mean anomalies (one
 turn too many was added)

---
 posidonius/tools.py | 5 +----
 src/tools.rs        | 6 +-----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 4d4800c..08765e2 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -645,10 +645,7 @@ def kepler_solution_for_eccentrities_smaller_than_one(e, oldl):
     piby2 = 0.5 * PI
 
     # Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0.:
-       l = modulus(oldl, TWO_PI)
-    else:
-       l = (modulus(oldl, TWO_PI)) + TWO_PI
+    l = modulus(oldl, TWO_PI) # Always positive
 
     sign = 1.
     if l > PI:
diff --git a/src/tools.rs b/src/tools.rs
index 6ac6c2c..fbbf3e2 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -427,11 +427,7 @@ fn kepler_solution_for_eccentrities_smaller_than_one(e: f64, oldl: f64) -> f64 {
     let piby2 = 0.5 * PI;
   
     // Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0. {
-       l = modulus(oldl, TWO_PI);
-    } else {
-       l = (modulus(oldl, TWO_PI)) + TWO_PI;
-    }
+    l = modulus(oldl, TWO_PI); // Always positive
     let mut sign = 1.;
     if l > PI {
        l = TWO_PI - l;
-- 
2.43.0


From 7779dde6344db7a234edb1a2d2eba8302082397e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 31/57] fix: Kepler's equation for hyperbolas with a small mean
 anomaly (the mean anomaly was returned)

---
 posidonius/tools.py | 4 ++--
 src/tools.rs        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 08765e2..4d59852 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -815,7 +815,7 @@ def kepler_solution_for_a_hyperbola(e, n):
 
     if abn < 0.636*e -0.6:
        tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n)
-       orbel_fhybrid = tmp[1]
+       orbel_fhybrid = tmp[0]
     else:
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n)
 
@@ -889,7 +889,7 @@ def kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e, capn0):
            dx = -f/fp
            orbel_flon = x + dx
            #   If we have converged here there's no point in going on
-           if dx.abs() < tiny:
+           if np.abs(dx) < tiny:
                 converge = True
                 break
 
diff --git a/src/tools.rs b/src/tools.rs
index fbbf3e2..ef21c12 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -606,7 +606,7 @@ fn kepler_solution_for_a_hyperbola(e: f64, n: f64) -> f64 {
     //// TODO:
     if abn < 0.636*e -0.6 {
        let tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n);
-       orbel_fhybrid = tmp.1;
+       orbel_fhybrid = tmp.0;
     } else {
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n);
     }
-- 
2.43.0


From d941196877c532eed77d28cbc8c194150893fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 32/57] fix: the inclination is not mirrored when the ascending
 node lies on the far side (elements did not describe the orbit)

---
 src/tools.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index ef21c12..c52c492 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -120,9 +120,6 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_i = (hz / h).clamp(-1.,1.);
     if cos_i.abs() < 1. {
         i = cos_i.acos();
-        if hy > 0. {
-            i = TWO_PI - i;
-        }
         //longitude_of_ascending_node = (hx / -hy).atan();
         longitude_of_ascending_node = hx.atan2(-hy);
         if longitude_of_ascending_node < 0. {
-- 
2.43.0


From 9cdae363fc520a428ebf9d9d75c8d0bee55033f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 33/57] fix: mean anomaly of circular orbits in the second half
 of the orbit

---
 src/tools.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools.rs b/src/tools.rs
index c52c492..2749c69 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -182,6 +182,10 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
         let x_rot = x*longitude_of_ascending_node.cos() + y*longitude_of_ascending_node.sin();
         cos_f = (x_rot / r).clamp(-1.,1.);
         true_anomaly = cos_f.acos();
+        let y_rot = (-x*longitude_of_ascending_node.sin() + y*longitude_of_ascending_node.cos())*i.cos() + z*i.sin();
+        if y_rot < 0. {
+            true_anomaly = TWO_PI - true_anomaly;
+        }
     } else {
         cos_f = (e_scal_r / (eccentricity * r)).clamp(-1., 1.);
         true_anomaly = cos_f.acos();
-- 
2.43.0


From 0a7e7b81a442429b8b7a305b82decfb6243fc042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:00 +0000
Subject: [PATCH 34/57] fix: mean anomaly of hyperbolic orbits (it was always
 zero)

---
 src/tools.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 2749c69..7f74d8f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -200,7 +200,7 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     if eccentricity == 0. {
         mean_anomaly = true_anomaly;
     } else {
-        let mut cos_bige = ((1./eccentricity)*( 1. - (r / a) )).clamp(-1.,1.);
+        let mut cos_bige = (1./eccentricity)*( 1. - (r / a) );
 
         // Mean anomaly for ellipse
         if eccentricity < 1. {
@@ -226,11 +226,13 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
 
     }
   
-    if mean_anomaly < 0. {
-        mean_anomaly = mean_anomaly + TWO_PI;
-    }
-    if mean_anomaly > TWO_PI {
-        mean_anomaly = modulus(mean_anomaly, TWO_PI);
+    if eccentricity < 1. { // Not periodic otherwise
+        if mean_anomaly < 0. {
+            mean_anomaly = mean_anomaly + TWO_PI;
+        }
+        if mean_anomaly > TWO_PI {
+            mean_anomaly = modulus(mean_anomaly, TWO_PI);
+        }
     }
 
     // Given relative coordinates and velocities (of the body 1 respect to body 2),
-- 
2.43.0


From 1b96411ed2d891895b9c71df6ff9d5b9f96da94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:45 +0000
Subject: [PATCH 35/57] fix: every planet exerts its own torque on a Kaula
 central body (the force of the last planet was used for all of them)

---
 src/effects/tides/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 8819ec5..ef8c1b3 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -244,6 +244,10 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
         if !matches!(particle.tides.effect, TidesEffect::OrbitingBody(_)) {
             continue; // Bodies without tides do not raise them on the central body
         }
+        if matches!(tidal_host_particle.tides.effect, TidesEffect::CentralBody(TidalModel::Kaula(_))) {
+            // The central body only remembers the secular force of the last body that raised a tide on it
+            kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
+        }
         if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
-- 
2.43.0


From c69f066054f4638cfe5395648c49e4416a552570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 36/57] fix: python accepts no more particles than the program
 can integrate

---
 posidonius/particles/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index fea685a..9576f1d 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -71,7 +71,7 @@ class Universe(object):
         self._data['n_particles'] -= 1 # Compensate the addition from the previous add_particle call
 
     def add_particle(self, particle):
-        if self._data['n_particles'] > MAX_PARTICLES:
+        if self._data['n_particles'] >= MAX_PARTICLES:
             raise Exception("Maximum number of particles reached: {}".format(MAX_PARTICLES))
 
         if effects.tides.CentralBody in particle.effects():
-- 
2.43.0


From 6b4ce0d68d8024809da26e936e667ab50184ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 37/57] fix: python checks the time limit, not the initial
 time, against the last age of the evolution model

---
 posidonius/particles/universe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 9576f1d..4de6179 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -130,8 +130,8 @@ class Universe(object):
         evolver = particle.get_evolver(self._data['initial_time'])
         if len(evolver['time']) > 0 and evolver['time'][0] > 0.:
             raise Exception("Your initial time ({} days | {:.2e} years) is smaller than the minimum allowed age of the star ({} days | {:.2e} years)".format(self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0]+self._data['initial_time'], (evolver['time'][0]+self._data['initial_time'])/365.25));
-        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['initial_time']:
-            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)", self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0], evolver['time'][0]/365.25)
+        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['time_limit']:
+            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)".format(self._data['time_limit'], self._data['time_limit']/365.25, evolver['time'][-1], evolver['time'][-1]/365.25))
 
         if particle.evolution() != effects.evolution.NonEvolving and self._data["consider_effects"]["evolution"]:
             # Check if input radius is close enough to evolved radius at the corresponding time and update it + angular momentum if not
-- 
2.43.0


From 8e919d6080527e9b9492272b9e1890f8db7e5ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 38/57] fix: classifying a history around another body than the
 first one keeps the first one and leaves out the reference

---
 posidonius/analysis/history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index 7755873..bdcf973 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -56,9 +56,11 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
 
     planets_data = {}
     planets_keys = [] # To ensure the order
-    for i in range(n_particles-1):
-        planets_data["{}".format(i+1)] = data[data['particle'] == i+1]
-        planets_keys.append("{}".format(i+1))
+    for i in range(n_particles):
+        if i == reference_particle_index:
+            continue
+        planets_data["{}".format(i)] = data[data['particle'] == i]
+        planets_keys.append("{}".format(i))
 
     # From inertial to heliocentric coordinates
     n_data_points = len(star_data['position_x'])
-- 
2.43.0


From ab9653f515267a579b954d9baf0617a2fc24aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 39/57] fix: resonance data uses the longitude of the ascending
 node, not the longitude of perihelion twice

---
 posidonius/analysis/resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/resonances.py b/posidonius/analysis/resonances.py
index 5420d20..bc5f849 100644
--- a/posidonius/analysis/resonances.py
+++ b/posidonius/analysis/resonances.py
@@ -160,7 +160,7 @@ def calculate_resonance_data(star_data, planets_keys, planets_data):
         e.append(_e)
         # Change from longitude of perihelion to argument of perihelion
         longitude_of_perihelion_degrees = (_p * RAD2DEG) % 360.
-        longitude_of_ascending_node_degrees = (_p * RAD2DEG) % 360.
+        longitude_of_ascending_node_degrees = (_n * RAD2DEG) % 360.
         g.append((longitude_of_perihelion_degrees - longitude_of_ascending_node_degrees) % 360.)
         n.append(longitude_of_ascending_node_degrees)
         M.append((_l * RAD2DEG) % 360.)
-- 
2.43.0


From 7e23509eaa8dec4e77fb3b68bb0e96d032f29480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:55 +0000
Subject: [PATCH 40/57] fix: python orbital elements of several orbits when the
 node of only some of them lies on the y axis

---
 posidonius/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 4d59852..7cf62ae 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -335,7 +335,7 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
             true_longitude[zero] = np.arctan2(y[zero]*ci[zero], x[zero])
     # SBC: Added to Alex/Leon's updated code
     if np.any(~non_zero):
-        true_longitude = np.arctan2(y[~non_zero]*ci[~non_zero], x[~non_zero])
+        true_longitude[~non_zero] = np.arctan2(y[~non_zero]*ci[~non_zero], x[~non_zero])
     # SBC
 
     negative_ci = ci < 0.
-- 
2.43.0


From d46876894af2fff5ecef59ef007f892333871379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:49 +0000
Subject: [PATCH 41/57] fix: python refuses different central bodies for tides
 and rotational flattening, as the program does

---
 posidonius/particles/universe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 4de6179..1479397 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -196,6 +196,9 @@ class Universe(object):
                 self._data['hosts']['index']['most_massive'] = i
         if self._data['hosts']['index']['general_relativity'] != MAX_PARTICLES+1 and self._data['hosts']['index']['general_relativity'] != self._data['hosts']['index']['most_massive']:
                 raise Exception("The most massive body should be the central body for general relativity effects!")
+        if self._data["consider_effects"]["tides"] and self._data["consider_effects"]["rotational_flattening"] \
+                and self._data['hosts']['index']['tides'] != self._data['hosts']['index']['rotational_flattening']:
+                raise Exception("The central body for tidal & rotational flattening effects needs to be the same!")
 
     def check_effects_vs_central_and_orbiting(self):
         found_tides_central_body = False
-- 
2.43.0


From cccf58b4a21bdbd23b2623a15f15ce11a67c9f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:49 +0000
Subject: [PATCH 42/57] fix: python supports the 1.5 Msun model of Bolmont &
 Mathis 2016, as the program does

---
 posidonius/effects/evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posidonius/effects/evolution.py b/posidonius/effects/evolution.py
index 3dababd..2cc821b 100644
--- a/posidonius/effects/evolution.py
+++ b/posidonius/effects/evolution.py
@@ -299,6 +299,8 @@ class BolmontMathis2016(EvolutionType):
             filename = "input/Bolmont_Mathis_2016/L13Z02r.dat"
         elif mass <= 1.401 and mass >= 1.399:
             filename = "input/Bolmont_Mathis_2016/L14Z02r.dat"
+        elif mass <= 1.501 and mass >= 1.499:
+            filename = "input/Bolmont_Mathis_2016/L15Z02r.dat"
         else:
             raise Exception("The evolution type Bolmont_Mathis_2016 does not support a mass of {} Msun!".format(mass))
 
-- 
2.43.0


From 0c316eb9356a668f1eedf1c7374ebe65cf9bd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:58 +0000
Subject: [PATCH 43/57] fix: a creeping body on an unbound orbit has no
 periodic deformation (it was not a number, or never computed)

---
 src/effects/tides/creep_coplanar.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index d685cd3..0bde934 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -247,8 +247,9 @@ pub fn calculate_particle_shape(
     ): (f64, f64);
     let alpha: f64;
     let mean_motion_to_relaxation_factor_ratio: f64;
-    if uniform_viscosity_coefficient == 0. {
-        // Bodies without viscosity do not creep
+    if uniform_viscosity_coefficient == 0. || eccentricity >= 1. {
+        // Bodies without viscosity do not creep, and the deformation
+        // is only defined for periodic orbits
         return Axes{x: 0., y: 0., z: 0.};
     }
     let (
-- 
2.43.0


From 0614319eb1eaeb76320e9cac83c21cace839ffa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:20 +0000
Subject: [PATCH 44/57] fix: a body with Kaula tides on an unbound orbit takes
 no part in them (it was not a number or an index out of bounds)

---
 src/effects/tides/kaula.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 8e0c210..1631eda 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -84,9 +84,11 @@ fn calculate_tidal_force_component(tidal_host_particle: &mut Particle, particle:
     // The normal component act on the co longitude axis
     // The orthogonal component act on the co latitude axis
     // ---
-    let (radial_component_of_the_tidal_force, radial_component_of_the_tidal_force_secular) = calculate_radial_component_of_the_tidal_force(tidal_host_particle, particle, keplerian_elements, central_body);
-    let (normal_component_of_the_tidal_force, normal_component_of_the_tidal_force_secular) = calculate_normal_component_of_the_tidal_force(tidal_host_particle, particle, keplerian_elements, central_body);
-    let (orthogonal_component_of_the_tidal_force, orthogonal_component_of_the_tidal_force_secular) = calculate_orthogonal_component_of_the_tidal_force(tidal_host_particle, particle, keplerian_elements, central_body);
+    // The expansion in frequencies only exists for periodic orbits, bodies that are not bound are left without tides
+    let bound = keplerian_elements.2 < 1.;
+    let (radial_component_of_the_tidal_force, radial_component_of_the_tidal_force_secular) = if bound { calculate_radial_component_of_the_tidal_force(tidal_host_particle, particle, keplerian_elements, central_body) } else { (0., 0.) };
+    let (normal_component_of_the_tidal_force, normal_component_of_the_tidal_force_secular) = if bound { calculate_normal_component_of_the_tidal_force(tidal_host_particle, particle, keplerian_elements, central_body) } else { (0., 0.) };
+    let (orthogonal_component_of_the_tidal_force, orthogonal_component_of_the_tidal_force_secular) = if bound { calculate_orthogonal_component_of_the_tidal_force(tidal_host_particle, particle, keplerian_elements, central_body) } else { (0., 0.) };
 
     // Required for denergy_dt calculation:
     if !central_body {
-- 
2.43.0


From d464caa2f52d6930384019938cabaab5bc52baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 45/57] fix: python longitude of perihelion of inclined orbits
 whose node is on the x axis, and of circular orbits

---
 posidonius/tools.py | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 7cf62ae..8ec44e8 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -448,34 +448,18 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         if np.any(negative_rv):
             f[negative_rv] = TWO_PI - f[negative_rv]
         f = modulus((f+ TWO_PI + TWO_PI), TWO_PI)
-        # p[big_eccentricity] = true_longitude[big_eccentricity] - f[big_eccentricity]
-        p[big_eccentricity] = np.arctan2(ey[big_eccentricity],ex[big_eccentricity])
+        # Argument of perihelion: the eccentricity vector measured from the ascending node along the orbital plane
+        ex_node = ex*np.cos(n) + ey*np.sin(n)
+        ey_node = (-ex*np.sin(n) + ey*np.cos(n))*np.cos(i) + ez*np.sin(i)
+        arg_peri = np.arctan2(ey_node, ex_node)
+        p[big_eccentricity] = n[big_eccentricity] + arg_peri[big_eccentricity]
         p[big_eccentricity] = modulus((p[big_eccentricity] + TWO_PI + TWO_PI), TWO_PI)
-        # p[big_eccentricity] = np.arctan2(ey[big_eccentricity],ex[big_eccentricity]) %(2.*np.pi)
 
     # SBC: Added to Alex/Leon's updated code
     if np.any(small_eccentricity):
         f[small_eccentricity] = l[small_eccentricity]
     #
 
-    non_zero_long_asc_node = n >=1e-8
-    arg_peri = np.zeros(len(eccentricity))
-    long_asc_node = np.zeros(len(eccentricity))
-    incl = np.zeros(len(eccentricity))
-    if np.any(non_zero_long_asc_node):
-        long_asc_node[non_zero_long_asc_node] = n[non_zero_long_asc_node]
-        incl[non_zero_long_asc_node] = i[non_zero_long_asc_node]
-        ex_rot = ex*np.cos(long_asc_node) +ey*np.sin(long_asc_node)
-        ey_rot = -ex*np.sin(long_asc_node) +ey*np.cos(long_asc_node)
-        ez_rot = ez
-        ex_rot_2 = ex_rot
-        ey_rot_2 = ey_rot*np.cos(incl) + ez_rot*np.sin(incl)
-        _ez_rot_2 = -ey_rot*np.sin(incl) + ez_rot*np.cos(incl)
-
-        arg_peri = np.arctan2(ey_rot_2,ex_rot_2)
-        p[non_zero_long_asc_node] = long_asc_node[non_zero_long_asc_node] + arg_peri[non_zero_long_asc_node]
-        p = modulus((p + TWO_PI + TWO_PI), TWO_PI)
-
     if len(a) == 1:
         return (a[0], q[0], eccentricity[0], i[0], p[0], n[0], l[0], f[0])
     else:
-- 
2.43.0


From af2bf98d587e63fa2baa7e761d51ce47fdba77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 46/57] fix: python mean anomaly of hyperbolic orbits (reduced
 to one turn, lost among elliptic orbits)

---
 posidonius/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 8ec44e8..cd3bcb6 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -380,7 +380,7 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         ce[big_eccentricity] = (v2[big_eccentricity]*r[big_eccentricity] - gm[big_eccentricity]) / (eccentricity[big_eccentricity]*gm[big_eccentricity])
         ellipse = np.logical_and(big_eccentricity, eccentricity < 1.)
         if np.any(ellipse):
-            change_sign = np.logical_and(eccentricity, np.abs(ce) > 1.)
+            change_sign = np.logical_and(ellipse, np.abs(ce) > 1.)
             if np.any(change_sign):
                 ce[change_sign] = np.sign(ce[change_sign])
             bige = np.zeros(len(ce))
@@ -408,10 +408,11 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
 
     #if l > TWO_PI:
         #l = modulus(l, TWO_PI)
-    negative_l = l < 0.
+    # (the mean anomaly of hyperbolas is not periodic)
+    negative_l = np.logical_and(l < 0., eccentricity < 1.)
     if np.any(negative_l):
         l[negative_l] += TWO_PI
-    bigger_than_two_pi = l > TWO_PI
+    bigger_than_two_pi = np.logical_and(l > TWO_PI, eccentricity < 1.)
     if np.any(bigger_than_two_pi):
         l[bigger_than_two_pi] = modulus(l[bigger_than_two_pi], TWO_PI)
 
-- 
2.43.0


From 0aeb87fbb89fb7d32efea0d693776a4c7d723a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 47/57] fix: python cartesian coordinates of parabolic orbits
 (they always raised an exception)

---
 posidonius/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index cd3bcb6..1ea3b28 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -570,7 +570,8 @@ def _calculate_cartesian_coordinates(gm, q, e, i0, p, n0, l):
     d23 = cg * si
 
     # Semi-major axis
-    a = q / (1. - e)
+    if e != 1.:
+       a = q / (1. - e)
 
     #se
     #ce
@@ -763,7 +764,7 @@ def kepler_solution_for_a_parabola(q0):
     if q < 1.0e-3:
        eccentric_anomaly = q*(1. - (q*q/3.)*(1. -q*q))
     else:
-       x = 0.5*(3.*q + (9.* np.power(q, 2) + 4.).sqrt())
+       x = 0.5*(3.*q + np.sqrt(9.* np.power(q, 2) + 4.))
        tmp = np.power(x, 1./3.)
        eccentric_anomaly = tmp - 1./tmp
 
-- 
2.43.0


From b07852425f8a31019099e22be2574cf71ad76099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 48/57] fix: python cosine interpolation (math was not
 imported)

---
 posidonius/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 1ea3b28..8bdda45 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -71,7 +71,7 @@ def cosine_interpolation(target_x, x, y):
         ## Cosine interpolate (http://paulbourke.net/miscellaneous/interpolation/)
         # - Smooth around the real data points (contrary to the linear interpolation)
         target_percent = (target_x - x[left])/(x[right] - x[left]) # Transform target to percent as in transforming x[left]..x[right] to 0..1
-        target_percent = (1. - math.cos(target_percent*PI)) / 2. # Transform target percent so that it gets smoothed when close to 0 or 1 (i.e., closer to x[left] or x[right])
+        target_percent = (1. - np.cos(target_percent*PI)) / 2. # Transform target percent so that it gets smoothed when close to 0 or 1 (i.e., closer to x[left] or x[right])
         target_y = y[left] * (1. - target_percent) + y[right] * target_percent
     return target_y
 
-- 
2.43.0


From db8f03e26dce4db406317138e1f785053cd3b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 49/57] fix: python reference particles can be created and are
 written as the program reads them

---
 posidonius/particles/particle.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/posidonius/particles/particle.py b/posidonius/particles/particle.py
index cbf43fe..f392368 100644
--- a/posidonius/particles/particle.py
+++ b/posidonius/particles/particle.py
@@ -8,24 +8,9 @@ from posidonius import effects
 
 class Reference(object):
     def __init__(self, variant, index=None):
-        self._data = {
-            "effect": "Disabled",
-            "parameters": {
-                "input": {
-                    "k_factor": 0.0,
-                    "rotation_saturation": 0.0,
-                },
-                "internal": {
-                    "rotation_saturation_2": 0.0,
-                },
-                "output": {
-                    "factor": 0.0,
-                },
-            },
-        }
         if variant in ("Particle", ):
-            self._data[variant] = int(index)
-        if variant in ("MostMassiveParticle", ):
+            self._data = {variant: int(index)}
+        elif variant in ("MostMassiveParticle", ):
             self._data = variant
         else:
             raise Exception("Unknown variant '{}'".format(variant))
@@ -42,7 +27,7 @@ class MostMassiveParticle(Reference):
 
 class ReferenceParticle(Reference):
     def __init__(self, index):
-        super(ReferenceParticle, self).__init__("ReferenceParticle", index=index)
+        super(ReferenceParticle, self).__init__("Particle", index=index)
 
 
 class Particle(object):
-- 
2.43.0


From 56b53752f1b9ae2150cc5f473748b43a788ddc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 50/57] fix: python finds the stellar models inside its own
 directory (a slash was missing)

---
 posidonius/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/constants.py b/posidonius/constants.py
index 4a05f8a..e71eaab 100644
--- a/posidonius/constants.py
+++ b/posidonius/constants.py
@@ -2,7 +2,7 @@ import numpy as np
 import os
 
 MAX_PARTICLES = 10
-BASE_DIR = os.path.dirname(os.path.realpath(__file__))
+BASE_DIR = os.path.dirname(os.path.realpath(__file__)) + "/"
 if not os.path.exists(BASE_DIR+"/input/"):
     BASE_DIR = os.path.dirname(os.path.realpath(__file__)) + "/../"
     if not os.path.exists(BASE_DIR+"/input/"):
-- 
2.43.0


From 14c4fe0459811571ff952818c658222800320949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 51/57] fix: classified orbital elements do not mix inertial
 and heliocentric coordinates of the other planets

---
 posidonius/analysis/history.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index bdcf973..c37480f 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -63,8 +63,6 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
         planets_keys.append("{}".format(i))
 
     # From inertial to heliocentric coordinates
-    n_data_points = len(star_data['position_x'])
-    zeros = Axes(np.zeros(n_data_points), np.zeros(n_data_points), np.zeros(n_data_points))
     for key in planets_keys:
         planets_data[key]['position_x'] -= star_data['position_x']
         planets_data[key]['position_y'] -= star_data['position_y']
@@ -72,6 +70,10 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
         planets_data[key]['velocity_x'] -= star_data['velocity_x']
         planets_data[key]['velocity_y'] -= star_data['velocity_y']
         planets_data[key]['velocity_z'] -= star_data['velocity_z']
+
+    n_data_points = len(star_data['position_x'])
+    zeros = Axes(np.zeros(n_data_points), np.zeros(n_data_points), np.zeros(n_data_points))
+    for key in planets_keys:
         semimajor_axis = []
         eccentricity = []
         inclination = []
-- 
2.43.0


From 3985ea2a536c68aff9e2ab25a8db2693de4f0799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:22 +0000
Subject: [PATCH 52/57] fix: classifying a history does not alter the data it
 is given (a second time the years were divided again)

---
 posidonius/analysis/history.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index c37480f..97c86b3 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -47,6 +47,7 @@ def read(filename):
 
 def classify(n_particles, data, reference_particle_index=0, discard_first_hundred_years=False):
     # Ignore first 100 years
+    data = data.copy() # Do not alter the original data
     data['current_time'] /= 365.25 # From days to years
     if discard_first_hundred_years:
         data = data[data['current_time'] >= 100.]
-- 
2.43.0


From 91bda698088d86f43e07531ef43c99c04a1a502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:23 +0000
Subject: [PATCH 53/57] fix: a resonance at the numerator limit is not skipped,
 as documented

---
 posidonius/analysis/resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/resonances.py b/posidonius/analysis/resonances.py
index bc5f849..53a1a14 100644
--- a/posidonius/analysis/resonances.py
+++ b/posidonius/analysis/resonances.py
@@ -58,7 +58,7 @@ def get_possible_resonances(periodRatio, uncertainty=0.05, denominator_limit=12,
     # We sort the resonances to get the more interesting first (3:2 before 32:27 for instance)
     tmp = [(res.numerator, res) for res in resonances]
     tmp.sort()
-    resonances = [element[1] for element in tmp if element[1].numerator < numerator_limit]
+    resonances = [element[1] for element in tmp if element[1].numerator <= numerator_limit]
 
     #~ print(uncertainty)
     #~ print(periodMin)
-- 
2.43.0


From bdf916eec669c1edfe794bd6eddf65d7d1a0b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:31 +0000
Subject: [PATCH 54/57] fix: python mean longitude of retrograde circular
 orbits in the reference plane (half a turn away)

---
 posidonius/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 8bdda45..61f45fb 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -341,6 +341,10 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
     negative_ci = ci < 0.
     if np.any(negative_ci):
         true_longitude[negative_ci] += PI
+    # Retrograde orbits in the reference plane have no node, angles are measured from the x axis
+    retrograde_plane = np.logical_and(rest, ci < 0.)
+    if np.any(retrograde_plane):
+        true_longitude[retrograde_plane] = np.arctan2(-y[retrograde_plane], x[retrograde_plane])
 
     ###-------------------------------------------------------------------------
     ### l: mean_anomaly
-- 
2.43.0


From bc0fde44bbe214f9649bc8669c2dd6dfc09ea906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:31 +0000
Subject: [PATCH 55/57] fix: one step of WHFast always ends, and fast unbound
 bodies keep to their orbit (overflowing Stumpff functions)

---
 src/integrator/whfast.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index dc4fc21..e6dd6c5 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -796,10 +796,11 @@ impl WHFast {
             loop {
                 gs = WHFast::stiefel_gs3(beta, x);
                 let s   = r0*x + eta0*gs[2] + zeta0*gs[3]-_dt;
-                if s >= 0. {
-                    x_max = x;
-                } else {
+                if s < 0. {
                     x_min = x;
+                } else {
+                    // Too large (also when the functions overflowed and s is not a number)
+                    x_max = x;
                 }
                 x = (x_max + x_min)/2.;
 
@@ -851,7 +852,7 @@ impl WHFast {
         let invfactorial: [f64; 35] = [1., 1., 1./2., 1./6., 1./24., 1./120., 1./720., 1./5040., 1./40320., 1./362880., 1./3628800., 1./39916800., 1./479001600., 1./6227020800., 1./87178291200., 1./1307674368000., 1./20922789888000., 1./355687428096000., 1./6402373705728000., 1./121645100408832000., 1./2432902008176640000., 1./51090942171709440000., 1./1124000727777607680000., 1./25852016738884976640000., 1./620448401733239439360000., 1./15511210043330985984000000., 1./403291461126605635584000000., 1./10888869450418352160768000000., 1./304888344611713860501504000000., 1./8841761993739701954543616000000., 1./265252859812191058636308480000000., 1./8222838654177922817725562880000000., 1./263130836933693530167218012160000000., 1./8683317618811886495518194401280000000., 1./295232799039604140847618609643520000000.];
         let mut z = z;
         let mut n = 0;
-        while z.abs() > 0.1 {
+        while z.abs() > 0.1 && z.is_finite() {
             z = z/4.;
             n += 1;
         }
-- 
2.43.0


From 93cd4649976d9d5c9275f1d65ff218abbfa76ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 56/57] fix: a central disk without any extent is no disk (it
 was left switched on without a host and the run stopped at its start)

---
 posidonius/particles/universe.py |  5 ++++-
 src/particles/universe.rs        | 11 +++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 1479397..a604392 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -109,8 +109,11 @@ class Universe(object):
             print("[WARNING {} UTC] Added a particle with general relativity effect (orbiting body) but the general relativity effect is disabled for this simulation".format(datetime.datetime.now(datetime.UTC).strftime("%Y.%m.%d %H:%M:%S")))
 
         if effects.disk.CentralBody in particle.effects():
+            disk = particle.get()['disk']['effect']['CentralBody']
             if self._data["consider_effects"]["disk"]:
-                if self._data['hosts']['index']['disk'] == MAX_PARTICLES+1:
+                if disk['inner_edge_distance'] == 0 and disk['outer_edge_distance'] == 0:
+                    print("[WARNING {} UTC] Added a particle with a disk without any extent, which is not a disk".format(datetime.datetime.now(datetime.UTC).strftime("%Y.%m.%d %H:%M:%S")))
+                elif self._data['hosts']['index']['disk'] == MAX_PARTICLES+1:
                     self._data['hosts']['index']['disk'] = self._data['n_particles']
                 else:
                     raise Exception("Only one body with a disk is allowed!")
diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index be47d4e..414737a 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -726,11 +726,14 @@ fn disable_unnecessary_effects(consider_effects: &mut ConsiderEffects, particles
                 found_central_body_general_relativity = true;
             }
         }
-        if let DiskEffect::CentralBody(_) = particle.disk.effect {
-            if found_central_body_disk {
-                panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+        if let DiskEffect::CentralBody(disk) = particle.disk.effect {
+            // A disk without any extent is not a disk (see find_indices)
+            if disk.inner_edge_distance != 0. || disk.outer_edge_distance != 0. {
+                if found_central_body_disk {
+                    panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+                }
+                found_central_body_disk = true;
             }
-            found_central_body_disk = true;
         }
         if WindEffect::Disabled != particle.wind.effect {
             found_wind = true;
-- 
2.43.0


From 13e14f4c8ed2c2cf49d4461c97b0f484b0da47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 57/57] fix: the torque of frequency dependent (Kaula) tides is
 the one of the current positions also when only torques are asked for
 (leap-frog)

---
 src/effects/tides/common.rs | 6 +++++-
 src/particles/universe.rs   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index ef8c1b3..c335c13 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -220,11 +220,15 @@ pub fn copy_heliocentric_coordinates(host_particle: &mut Particle, particles: &m
 
 //////////////////////////////////////////////////////////////////////////////
 //// TIDES
-pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
+pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle], accelerations: bool) {
     let factor = -1.0;
 
     let central_body = false;
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if !accelerations && matches!(particle.tides.effect, TidesEffect::OrbitingBody(TidalModel::Kaula(_))) {
+            // The force of the current positions has not been computed by calculate_tidal_acceleration
+            kaula::calculate_tidal_force(tidal_host_particle, particle, central_body);
+        }
         if let TidesEffect::OrbitingBody(tidal_model) = &particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 414737a..d5035d6 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -478,7 +478,7 @@ impl Universe {
                         {
                             //// calculate_torques // Needed for dangular_momentum_dt
                             if self.consider_effects.tides {
-                                tides::calculate_dangular_momentum_dt_due_to_tides(&mut tidal_host_particle, &mut particles_left, &mut particles_right);
+                                tides::calculate_dangular_momentum_dt_due_to_tides(&mut tidal_host_particle, &mut particles_left, &mut particles_right, accelerations);
                             }
 
                             if self.consider_effects.rotational_flattening {
-- 
2.43.0

