"""Import the code under test from /repo/src (the working tree), quietly."""

import logging
import os
import sys
import time
import warnings

sys.dont_write_bytecode = True
# simulation time is UTC: a local time that is not UTC shows where it is taken for it
os.environ["TZ"] = "NST3:30NDT,M3.2.0,M11.1.0"
time.tzset()
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PROJ_NETWORK", "OFF")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")

REPO_SRC = os.environ.get("OCS_REPO_SRC", "/repo/src")
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import openclsim  # noqa: E402

if not os.path.realpath(openclsim.__file__).startswith(os.path.realpath(REPO_SRC) + os.sep):
    raise SystemExit(f"openclsim imported from {openclsim.__file__}, not {REPO_SRC}")

import numpy as np  # noqa: E402,F401
import pandas as pd  # noqa: E402,F401
import pyproj  # noqa: E402,F401
import shapely.geometry  # noqa: E402,F401
import simpy  # noqa: E402,F401

import openclsim.core as core  # noqa: E402,F401
import openclsim.model as model  # noqa: E402,F401
import openclsim.plugins as plugins  # noqa: E402,F401
from openclsim.core.movable import Routable  # noqa: E402,F401
from openclsim.critical_path.base_cp import BaseCP  # noqa: E402,F401
from openclsim.critical_path.dependencies_from_recorded_activities import (  # noqa: E402,F401
    DependenciesFromRecordedActivities,
)
from openclsim.critical_path.dependencies_from_simpy_step import (  # noqa: E402,F401
    CriticalPathEnvironment,
    DependenciesFromSimpy,
)
from openclsim.critical_path.simulation_graph import SimulationGraph  # noqa: E402,F401
