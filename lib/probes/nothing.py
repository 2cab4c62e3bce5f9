from lib.probes.probe import Nothing
