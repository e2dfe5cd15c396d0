"""Process set-up shared by every simulated run.

* pins every source of nondeterminism TensorFlow has on CPU (one intra-op and
  one inter-op thread, deterministic ops, seeded generators);
* always loads the library under test from source in /repo's working tree, so
  that a stale byte-code cache can never hide a change.
"""
import os
import sys

REPO = os.environ.get('TFMOT_SIM_REPO', '/repo')

os.environ.setdefault('TF_USE_LEGACY_KERAS', '1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('TF_NUM_INTRAOP_THREADS', '1')
os.environ.setdefault('TF_NUM_INTEROP_THREADS', '1')
os.environ.setdefault('TF_DETERMINISTIC_OPS', '1')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')

_READY = False


def _load_repo_from_source():
  import importlib._bootstrap_external as be
  orig = be.SourceLoader.get_code

  def get_code(self, fullname):
    if fullname.startswith('tensorflow_model_optimization'):
      path = self.get_filename(fullname)
      return self.source_to_code(self.get_data(path), path)
    return orig(self, fullname)

  be.SourceLoader.get_code = get_code


def boot(logical_cpus=1):
  global _READY
  if _READY:
    return
  _READY = True
  sys.dont_write_bytecode = True
  if REPO not in sys.path:
    sys.path.insert(0, REPO)
  _load_repo_from_source()
  import warnings
  warnings.filterwarnings('ignore')
  import logging
  logging.disable(logging.WARNING)
  import tensorflow as tf
  tf.get_logger().setLevel('ERROR')
  try:
    import absl.logging
    absl.logging.set_verbosity(absl.logging.FATAL)
  except ImportError:
    pass
  tf.config.threading.set_intra_op_parallelism_threads(1)
  tf.config.threading.set_inter_op_parallelism_threads(1)
  if logical_cpus > 1:
    cpu = tf.config.list_physical_devices('CPU')[0]
    tf.config.set_logical_device_configuration(
        cpu, [tf.config.LogicalDeviceConfiguration()] * logical_cpus)
  import tensorflow_model_optimization as tfmot
  assert os.path.abspath(tfmot.__file__).startswith(
      os.path.abspath(REPO) + os.sep), tfmot.__file__


def reset(seed):
  """Forget everything a previous simulated run left in this process."""
  import random
  import gc
  import numpy as np
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  keras.backend.clear_session()
  gc.collect()
  random.seed(seed)
  np.random.seed(seed % (2**32))
  tf.random.set_seed(seed % (2**31))
  tf.config.run_functions_eagerly(False)
