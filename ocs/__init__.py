"""Runtime monitors for OpenCLSim (see /verif/DESIGN.md)."""
