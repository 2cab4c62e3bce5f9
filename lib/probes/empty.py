from lib.probes.probe import Empty
