From ca05571d0acb1b25be9210e6388be7acf6cb64dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:25 +0000
Subject: [PATCH 01/16] fix: dataclass defaults for BalloonState and vae field
 shapes use default_factory (unhashable defaults are rejected on Python 3.11+,
 so neither module could be imported)

---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 .../generative/vae.py                         |  4 +--
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..6d08c3b 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -135,7 +135,7 @@ class Decoder(nn.Module):
   """A decoder network for a variational autoencoder."""
   num_hidden_layers: int = 3
   hidden_layer_network_width: int = 1000
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   @nn.compact
   def __call__(self, z: jnp.ndarray) -> jnp.ndarray:
@@ -191,7 +191,7 @@ class WindFieldVAE(nn.Module):
   """Class that learns a VAE to generate wind fields."""
   num_latents: int = 64
   reparameterize_latents: bool = True
-  field_shape: FieldShape = FieldShape()
+  field_shape: FieldShape = dataclasses.field(default_factory=FieldShape)
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-- 
2.43.0


From a8bb3d3574b17bed98a87c43e17f956766b9cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:19 +0000
Subject: [PATCH 02/16] fix: solar_calculator rejects invalid latitudes
 (LatLng.is_valid is a method and was never called)

---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From ae5b29ec967144c33cab9f41725c2309b9b3832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:42 +0000
Subject: [PATCH 03/16] fix: Energy >= a non-Energy raises instead of returning
 a (truthy) ValueError

---
 balloon_learning_environment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index d923a96..7858d5e 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -249,7 +249,7 @@ class Energy(object):
     if isinstance(other, Energy):
       return self.watt_hours >= other.watt_hours
     else:
-      return ValueError(f'Cannot compare Energy and {type(other)}')
+      raise ValueError(f'Cannot compare Energy and {type(other)}')
 
 
 class Power(object):
-- 
2.43.0


From 5b5fe2138a0efa205caaf6f49011cdf31a8a0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:42 +0000
Subject: [PATCH 04/16] fix: undo_squash_to_unit_interval rejects values
 outside [0, 1) (the chained comparison was never true)

---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From 48a0c0f690a80de191e681bcb88ca0ef4b249c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:42 +0000
Subject: [PATCH 05/16] fix: NamedPerciatelliFeatures.wind_at rejects invalid
 levels (the chained comparison was never true)

---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0


From dd08865b597a1917410f377006c97624336a9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:01 +0000
Subject: [PATCH 06/16] fix: WindGP falls back on the forecast when every
 measurement is older than its time horizon (the regression was fitted on an
 empty set and crashed)

---
 balloon_learning_environment/env/wind_gp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..5ff1cbd 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -183,6 +183,13 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
+
+        if inputs.shape[0] == 0:
+          # Every observation is too old to use; only the forecast remains.
+          means = np.zeros((locations.shape[0], 2))
+          self._add_forecast_to_prediction(locations, means)
+          return means, np.zeros(locations.shape[0])
+
       self.model.fit(inputs, targets)
 
       # Output should be a N x 2 set of predictions about local measurements,
-- 
2.43.0


From 2ca3676305e4deb5044c278b01cef613bf889e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 07/16] fix: sunrise and sunset searches bracket the crossing
 of the elevation (comparing distances to it at the end points could discard
 the half that held it: up to 14 minutes off near the equator)

---
 .../env/balloon/solar.py                      | 54 +++++++++++++++++--
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..fa2e715 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -284,13 +284,59 @@ def _find_solar_elevation(
         latlng, min_time, max_time, operator.neg, time_delta)
   else:
     try:
-      # Turn the numerical value into an absolute loss function.
       target_numeric = float(target)
-      return _find_solar_elevation_binary_search(
-          latlng, min_time, max_time,
-          lambda x: abs(x - target_numeric), time_delta)
     except ValueError:
       raise ValueError('Unknown target type: {}'.format(target))
+    return _find_solar_elevation_crossing(
+        latlng, min_time, max_time, target_numeric, time_delta)
+
+
+def _find_solar_elevation_crossing(
+    latlng: s2.LatLng,
+    min_time: dt.datetime,
+    max_time: dt.datetime,
+    target: float,
+    time_delta=_SEARCH_TIME_DELTA) -> Tuple[dt.datetime, float]:
+  """Finds the time at which the sun crosses a given elevation.
+
+  This assumes that the solar elevation is monotonic on the given interval.
+  The distance to the target is not symmetric around its minimum, so (unlike
+  for midnight and noon) the end points cannot be compared to bracket it.
+
+  Args:
+    latlng: Latitude/longitude at which to calculate.
+    min_time: Earliest time in the time interval to consider.
+    max_time: Latest time in the time interval to consider.
+    target: The elevation to be located, in degrees.
+    time_delta: Resolution of search process. If None, use 3 minutes.
+
+  Returns:
+    time: time, to within time_delta, at which the sun crosses the target.
+    elevation: solar elevation at that time.
+  """
+  if max_time < min_time:
+    raise ValueError('Time interval must have positive extent.')
+
+  def _elevation(idx: int) -> float:
+    return solar_calculator(latlng, min_time + time_delta * idx)[0]
+
+  low = 0
+  high = int((max_time - min_time) / time_delta)
+  assert high > 0
+
+  low_elevation, high_elevation = _elevation(low), _elevation(high)
+  rising = low_elevation < high_elevation
+  while high > low + 1:
+    midpoint = (low + high) // 2
+    midpoint_elevation = _elevation(midpoint)
+    if (midpoint_elevation < target) == rising:
+      low, low_elevation = midpoint, midpoint_elevation
+    else:
+      high, high_elevation = midpoint, midpoint_elevation
+
+  if abs(low_elevation - target) < abs(high_elevation - target):
+    return min_time + time_delta * low, low_elevation
+  return min_time + time_delta * high, high_elevation
 
 
 def _find_solar_elevation_binary_search(
-- 
2.43.0


From 09951f85c18227482ff678d28b07cf1e588e939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 08/16] fix: checkpoint names may have more than five digits
 and malformed ones are ignored (cleanup crashed or never removed them; one
 malformed name hid every checkpoint)

---
 balloon_learning_environment/agents/dopamine_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..2ad73fd 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -38,7 +38,9 @@ def _is_checkpoint_name(file_name: str) -> bool:
   if len(parts) != 2:
     return False
 
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  # Iteration numbers are padded to at least five digits.
+  return (parts[0] == 'checkpoint' and len(parts[1]) >= 5 and
+          parts[1].isdecimal())
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
@@ -88,9 +90,6 @@ def load_checkpoint(
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
   glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
-  def extract_episode(x):
-    return int(x[x.rfind('checkpoint_') + 11:-4])
-
   try:
     checkpoint_files = tf.io.gfile.glob(glob)
   except tf.errors.NotFoundError:
@@ -98,7 +97,8 @@ def get_latest_checkpoint(checkpoint_dir: str) -> int:
     return -1
 
   try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files)
+    latest_episode = max(_get_checkpoint_iteration(x)
+                         for x in checkpoint_files if _is_checkpoint_name(x))
   except ValueError:
     return -1
   return latest_episode
-- 
2.43.0


From 66a775a743a669d9aaff184acac733d87d7da382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:36 +0000
Subject: [PATCH 09/16] fix: combining the shards of a model no longer includes
 those of models whose names it prefixes

---
 balloon_learning_environment/eval/combine_eval_shards.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..90edf6f 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -20,6 +20,7 @@ r"""Combines sharded eval results into a single json file.
 import glob
 import json
 import os
+import re
 from typing import Sequence
 
 from absl import app
@@ -45,7 +46,11 @@ def main(argv: Sequence[str]) -> None:
   for model in FLAGS.models:
     data = list()
 
+    # Another model's name may start with this one's (e.g. dqn and dqn_big).
+    shard_name = re.compile(re.escape(model) + r'_\d+\.json')
     for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+      if not shard_name.fullmatch(os.path.basename(path)):
+        continue
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From 3543b86776450279990d878ecf5ed17ef26efc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:41 +0000
Subject: [PATCH 10/16] fix: report a missing perciatelli44 model with the
 documented error

---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From 5761ff215aec2c639e2635ed3995baeb7e2919b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:41 +0000
Subject: [PATCH 11/16] fix: render frames with current matplotlib

---
 .../env/rendering/matplotlib_renderer.py                    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..e031700 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,8 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      # Copied, since the next frame is drawn over this one.
+      frame = np.array(self._fig.canvas.buffer_rgba())[:, :, :3]
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From 63709d0862b0f5c296ea1e0bd15d266517233f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:11 +0000
Subject: [PATCH 12/16] fix: pass WindFieldVAE's field_shape to its decoder

The decoder always used the default field shape, so a model built for
another grid produced fields of the wrong shape.
---
 balloon_learning_environment/generative/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index 6d08c3b..578fb2a 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -195,7 +195,7 @@ class WindFieldVAE(nn.Module):
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-    self.decoder = Decoder()
+    self.decoder = Decoder(field_shape=self.field_shape)
     self.sigma = self.variable('params', 'sigma', lambda: 1.)
 
   def __call__(self, x: jnp.ndarray, z_rng: jnp.ndarray) -> VAEOutput:
-- 
2.43.0


From 90c13d9ffa110545f8b778dbf24a701467297c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:22 +0000
Subject: [PATCH 13/16] fix: wind generator training no longer reports to
 measurement series that do not exist (every run crashed after its first
 epoch)

---
 .../generative/learn_wind_field_generator.py                  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index bce2a3e..4a6d57c 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -286,10 +286,6 @@ def train(num_batches_per_epoch: int = 200,
     avg_batch_wind_speed = jnp.array(batch_wind_speeds).mean()
     avg_sigma = jnp.array(sigma).mean()
 
-    mse_series.create_measurement(metrics['mse'], epoch)
-    kld_series.create_measurement(metrics['kld'], epoch)
-    loss_series.create_measurement(avg_training_loss, epoch)
-
     logging.info(
         'epoch: %d, mse: %.4f, kld: %.4f, train loss: %.4f, sigma: %.4f', epoch,
         metrics['mse'], metrics['kld'], avg_training_loss, avg_sigma)
-- 
2.43.0


From 9f7f61a422d81be03990a67562f28e5ad7ad3e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:22 +0000
Subject: [PATCH 14/16] fix: train/sigma is the average over the epoch's
 batches, as the figures beside it are (it was the last batch's)

---
 .../generative/learn_wind_field_generator.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index 4a6d57c..a0f5b64 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -284,7 +284,7 @@ def train(num_batches_per_epoch: int = 200,
     avg_mse_loss = jnp.array(mses).mean()
     avg_kld_loss = jnp.array(klds).mean()
     avg_batch_wind_speed = jnp.array(batch_wind_speeds).mean()
-    avg_sigma = jnp.array(sigma).mean()
+    avg_sigma = jnp.array(sigmas).mean()
 
     logging.info(
         'epoch: %d, mse: %.4f, kld: %.4f, train loss: %.4f, sigma: %.4f', epoch,
-- 
2.43.0


From 981ab86707c2ca59ce3df1b916ca4f48dd623ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:25 +0000
Subject: [PATCH 15/16] fix: solar_calculator took the Julian day from the
 local date

An aware datetime in a zone other than UTC gave the sun of the day before
or after whenever its local date differed from the date in UTC.
---
 balloon_learning_environment/env/balloon/solar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index fa2e715..c916632 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -62,6 +62,9 @@ def solar_calculator(latlng: s2.LatLng,
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
 
+  # The Julian day below is that of the date in UTC.
+  time = time.astimezone(dt.timezone.utc)
+
   # Compute fraction_of_day from time.
   fraction_of_day = (
       int(time.timestamp()) %
-- 
2.43.0


From 3413afe3d434bd72eba2b2f5dc109b10a468477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:59 +0000
Subject: [PATCH 16/16] fix: a wind field reservoir that holds no fields out
 has an empty held-out batch (-0 sliced the whole dataset, training fields
 included)

---
 .../generative/dataset_wind_field_reservoir.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
index e1a6b52..f97ea65 100644
--- a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
+++ b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
@@ -78,4 +78,4 @@ class DatasetWindFieldReservoir(wind_field_reservoir.WindFieldReservoir):
       vae.py).
     """
 
-    return self.dataset[-self.eval_batch_size:, ...]
+    return self.dataset[self.dataset.shape[0] - self.eval_batch_size:, ...]
-- 
2.43.0

