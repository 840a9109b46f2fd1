//! Builds what probes are compiled against.
