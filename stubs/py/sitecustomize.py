"""Sleeping advances the clock of the simulated ROS world instead of passing time."""
import time
import vrosworld
time.sleep = lambda s: vrosworld.W.advance(s)
